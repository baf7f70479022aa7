import os
H="/verif/harness/freertos/"
ID="C40-flags-swapped"; PROP="C40"
NEEDS="waiting on several bits with exactly one of clear-on-exit and wait-for-all asked for"
BREAKS="the kernel is told to clear when asked to wait for all, and the reverse"
EDITS=[("port/freertos/event_groups.h","return base_type::wait_bits(uxBitsToWaitFor, xClearOnExit, xWaitForAllBits, wait.count());","return base_type::wait_bits(uxBitsToWaitFor, xWaitForAllBits, xClearOnExit, wait.count());")]
FLAGS='-DESTD_OS_FREERTOS=1 -I"$D"'
EXTRA={f: open(H+f).read() for f in ("FreeRTOS.h","task.h","event_groups.h")}
DEMO=r"""
#include <cstdint>
#include <estd/chrono.h>
#include <estd/port/freertos/event_groups.h>
static EventBits_t bits; static BaseType_t clear, all; static TickType_t ticks; static int store;
EventGroupHandle_t xEventGroupCreate() { return (EventGroupHandle_t)&store; }
EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t*) { return (EventGroupHandle_t)&store; }
void vEventGroupDelete(EventGroupHandle_t) {}
EventBits_t xEventGroupClearBits(EventGroupHandle_t, EventBits_t) { return 0; }
BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t, EventBits_t) { return 0; }
EventBits_t xEventGroupSetBits(EventGroupHandle_t, EventBits_t) { return 0; }
BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t, EventBits_t, BaseType_t*) { return 0; }
EventBits_t xEventGroupSync(EventGroupHandle_t, EventBits_t, EventBits_t, TickType_t) { return 0; }
EventBits_t xEventGroupWaitBits(EventGroupHandle_t, EventBits_t b, BaseType_t c, BaseType_t a, TickType_t t) { bits = b; clear = c; all = a; ticks = t; return 5; }
TickType_t xTaskGetTickCount() { return 0; }
void vTaskDelay(TickType_t) {}
int main()
{
    estd::freertos::event_group<false> g;
    for(int c = 0; c < 2; c++) for(int a = 0; a < 2; a++)
    {
        if(g.wait_bits(6, c, a, estd::chrono::freertos_clock::duration(9)) != 5) return 1;
        if(bits != 6 || (clear != 0) != c || (all != 0) != a || ticks != 9) return 1;
    }
    return 0;
}
"""
