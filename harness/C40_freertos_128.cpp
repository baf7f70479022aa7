// Property C40, with a kernel that ticks at 128 Hz.
// FLAGS: -DESTD_OS_FREERTOS=1 -DconfigTICK_RATE_HZ=128 -I$VERIF/harness/freertos
#include "C40_freertos.cpp"
