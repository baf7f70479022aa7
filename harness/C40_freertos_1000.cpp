// Property C40, with a kernel that ticks at 1000 Hz.
// FLAGS: -DESTD_OS_FREERTOS=1 -DconfigTICK_RATE_HZ=1000 -I$VERIF/harness/freertos
#include "C40_freertos.cpp"
