// Stand-in for the Trick message service, which is not installed here.
#ifndef VPT_MESSAGE_PROTO
#define VPT_MESSAGE_PROTO
enum { MSG_NORMAL, MSG_INFO, MSG_WARNING, MSG_ERROR, MSG_DEBUG };
#ifdef __cplusplus
extern "C"
#endif
int message_publish(int level, const char* format, ...);
#endif
