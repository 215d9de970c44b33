#include <chia/Thread.h>
