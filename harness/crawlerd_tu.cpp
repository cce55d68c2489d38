// The crawler daemon's program with its main function under another name.
#define main crawlerd_main
#include "crawler/crawlerd.cpp"
#undef main
