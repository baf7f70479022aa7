// A model of the FreeRTOS kernel, for use under the explorer.  Every call is checked for a living object of the right kind;
// where a call would wait, the explorer decides whether another task makes it possible in time.
#pragma once
#include "mc.h"
#include <deque>
#include <map>
#include <memory>
#include <FreeRTOS.h>
#include <task.h>
#include <semphr.h>
#include <queue.h>
#include <timers.h>
#include <event_groups.h>

enum Kind { Binary, Counting, Mutex, Recursive, Queue, Timer, Events, Task };
static const char* kind_name[] = {"binary semaphore", "counting semaphore", "mutex", "recursive mutex", "queue", "timer", "event group", "task"};
struct KernelObject
{
    Kind kind; void* storage = nullptr; bool alive = true;
    unsigned long count = 0, max = 1; int holder = -1; int depth = 0;                  // semaphores
    std::deque<std::string> items; unsigned long size = 0, room = 0; uint8_t* buffer = nullptr;   // queues
    const char* name = nullptr; TickType_t period = 0, expiry = 0; bool reload = false, active = false; void* id = nullptr; TimerCallbackFunction_t callback = nullptr; // timers
    EventBits_t bits = 0;
    TaskFunction_t code = nullptr; void* param = nullptr; unsigned long stack = 0, priority = 0; StackType_t* stack_at = nullptr;
};
struct Kernel
{
    std::vector<std::unique_ptr<KernelObject>> all; int task = 0; TickType_t now = 0;
    KernelObject tasks[3]; bool isr = false;
    // the last wait: for how long, and how it ended
    bool waited = false, rescued = false; TickType_t ticks = 0; std::string calls; TickType_t block = 0;
    void reset() { all.clear(); task = 0; now = 1000; waited = rescued = false; calls.clear(); for(auto& t : tasks) { t = KernelObject(); t.kind = Task; } }
    void begin() { waited = rescued = false; calls.clear(); ticks = 12345; block = 54321; }
    KernelHandle make(Kind k, void* storage, unsigned long max = 1, unsigned long count = 0)
    {
        mc::Ctx& c = *mc::current; for(auto& o : all) CHECK(!storage || !o->alive || o->storage != storage, "storage: of a living %s is used for another %s", kind_name[o->kind], kind_name[k]);
        all.emplace_back(new KernelObject); KernelHandle h = all.back().get(); h->kind = k; h->storage = storage; h->max = max; h->count = count; calls += "create "; return h;
    }
    KernelHandle find(KernelHandle h, const char* call)
    {
        mc::Ctx& c = *mc::current; bool known = h >= tasks && h < tasks + 3; for(auto& o : all) known |= o.get() == h; CHECK(known, "handle: %s of something that never was", call); CHECK(h->alive, "handle: %s of a deleted %s", call, kind_name[h->kind]); calls += call; calls += ' '; return h;
    }
    void want(KernelHandle h, const char* call, std::initializer_list<Kind> ks) { mc::Ctx& c = *mc::current; find(h, call); bool ok = false; for(Kind k : ks) ok |= h->kind == k; CHECK(ok, "handle: %s of a %s", call, kind_name[h->kind]); }
    void end(KernelHandle h, const char* call, std::initializer_list<Kind> ks) { want(h, call, ks); h->alive = false; }
    // whether what could not be done at once can be done after waiting
    bool wait(TickType_t t) { mc::Ctx& c = *mc::current; ticks = t; if(t == 0) return false; waited = true; if(t == portMAX_DELAY) rescued = true; else rescued = c.flip(); c.log("  (waits %u: %s)", (unsigned)t, rescued ? "possible" : "timed out"); return rescued; }
    unsigned living() const { unsigned n = 0; for(auto& o : all) n += o->alive; return n; }
};
static Kernel kernel;
#define SEMS {Binary, Counting, Mutex, Recursive}

SemaphoreHandle_t xSemaphoreCreateBinary() { return kernel.make(Binary, nullptr); }
SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t m, UBaseType_t n) { return kernel.make(Counting, nullptr, m, n); }
SemaphoreHandle_t xSemaphoreCreateMutex() { return kernel.make(Mutex, nullptr, 1, 1); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutex() { return kernel.make(Recursive, nullptr, 1, 1); }
SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t* s) { return kernel.make(Binary, s); }
SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t m, UBaseType_t n, StaticSemaphore_t* s) { return kernel.make(Counting, s, m, n); }
SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t* s) { return kernel.make(Mutex, s, 1, 1); }
SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t* s) { return kernel.make(Recursive, s, 1, 1); }
static BaseType_t give(SemaphoreHandle_t h, const char* call) { kernel.want(h, call, {Binary, Counting, Mutex}); mc::Ctx& c = *mc::current; if(h->count >= h->max) return pdFALSE; if(h->kind == Mutex) { CHECK(h->holder == kernel.task, "give: a mutex of task %d by task %d", h->holder, kernel.task); h->holder = -1; } h->count++; return pdTRUE; }
BaseType_t xSemaphoreGive(SemaphoreHandle_t h) { return give(h, "give"); }
BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t h, BaseType_t* w) { if(w) *w = pdTRUE; return give(h, "give_isr"); }
BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t h) { kernel.want(h, "give_recursive", {Recursive}); if(h->holder != kernel.task) return pdFAIL; if(--h->depth == 0) { h->holder = -1; h->count = 1; } return pdPASS; }
static BaseType_t take(SemaphoreHandle_t h, TickType_t t, const char* call)
{
    kernel.want(h, call, {Binary, Counting, Mutex}); kernel.ticks = t;
    if(h->count == 0) { if(!kernel.wait(t)) return pdFALSE; h->count++; }     // somebody else gave it
    h->count--; if(h->kind == Mutex) h->holder = kernel.task; return pdTRUE;
}
BaseType_t xSemaphoreTake(SemaphoreHandle_t h, TickType_t t) { return take(h, t, "take"); }
BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t h, BaseType_t* w) { if(w) *w = pdTRUE; return take(h, 0, "take_isr"); }
BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t h, TickType_t t)
{
    kernel.want(h, "take_recursive", {Recursive}); kernel.ticks = t;
    if(h->holder == kernel.task) { h->depth++; return pdPASS; }
    if(h->holder >= 0) { if(!kernel.wait(t)) return pdFAIL; }
    h->holder = kernel.task; h->depth = 1; h->count = 0; return pdPASS;
}
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t h) { kernel.want(h, "count", SEMS); return h->count; }
TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t h) { kernel.want(h, "holder", {Mutex, Recursive}); return h->holder < 0 ? nullptr : &kernel.tasks[h->holder]; }
void vSemaphoreDelete(SemaphoreHandle_t h) { kernel.end(h, "delete", SEMS); }

QueueHandle_t xQueueCreateStatic(UBaseType_t n, UBaseType_t size, uint8_t* b, StaticQueue_t* s) { KernelHandle h = kernel.make(Queue, s); h->room = n; h->size = size; h->buffer = b; return h; }
QueueHandle_t xQueueCreate(UBaseType_t n, UBaseType_t size) { return xQueueCreateStatic(n, size, nullptr, nullptr); }
const char* pcQueueGetName(QueueHandle_t h) { kernel.want(h, "name", {Queue}); return "Q"; }
void vQueueDelete(QueueHandle_t h) { kernel.end(h, "delete", {Queue}); }
UBaseType_t uxQueueMessagesWaiting(QueueHandle_t h) { kernel.want(h, "waiting", {Queue}); return h->items.size(); }
UBaseType_t uxQueueSpacesAvailable(QueueHandle_t h) { kernel.want(h, "spaces", {Queue}); return h->room - h->items.size(); }
static std::string item(QueueHandle_t h, const void* p) { return std::string((const char*)p, h->size); }
static std::string taken_by_other;   // what another task took out of a full queue, or put in an empty one
static std::string (*other_sends)(QueueHandle_t);
static BaseType_t send(QueueHandle_t h, const void* p, TickType_t t, const char* call)
{
    kernel.want(h, call, {Queue}); kernel.ticks = t;
    if(h->items.size() == h->room) { if(!kernel.wait(t)) return pdFALSE; h->items.pop_front(); }
    h->items.push_back(item(h, p)); if(h->buffer) memset(h->buffer, (int)h->items.size(), h->room * h->size); return pdTRUE;      // the whole of the buffer is the kernel's to use
}
BaseType_t xQueueSend(QueueHandle_t h, const void* p, TickType_t t) { return send(h, p, t, "send"); }
BaseType_t xQueueSendToBack(QueueHandle_t h, const void* p, TickType_t t) { return send(h, p, t, "send_to_back"); }
BaseType_t xQueueSendFromISR(QueueHandle_t h, const void* p, BaseType_t* w) { BaseType_t r = send(h, p, 0, "send_isr"); if(w && r) *w = pdTRUE; return r; }
BaseType_t xQueueReceive(QueueHandle_t h, void* p, TickType_t t) { kernel.want(h, "receive", {Queue}); kernel.ticks = t; if(h->items.empty()) { if(!kernel.wait(t)) return pdFALSE; h->items.push_back(other_sends(h)); } memcpy(p, h->items.front().data(), h->size); h->items.pop_front(); return pdTRUE; }
BaseType_t xQueuePeek(QueueHandle_t h, void* p, TickType_t t) { kernel.want(h, "peek", {Queue}); kernel.ticks = t; if(h->items.empty()) { if(!kernel.wait(t)) return pdFALSE; h->items.push_back(other_sends(h)); } memcpy(p, h->items.front().data(), h->size); return pdTRUE; }
BaseType_t xQueuePeekFromISR(QueueHandle_t h, void* p) { kernel.want(h, "peek_isr", {Queue}); if(h->items.empty()) return pdFALSE; memcpy(p, h->items.front().data(), h->size); return pdTRUE; }
static BaseType_t over(QueueHandle_t h, const void* p, const char* call) { mc::Ctx& c = *mc::current; kernel.want(h, call, {Queue}); CHECK(h->room == 1, "overwrite: in a queue of %lu", h->room); h->items.clear(); h->items.push_back(item(h, p)); return pdPASS; }
BaseType_t xQueueOverwrite(QueueHandle_t h, const void* p) { return over(h, p, "overwrite"); }
BaseType_t xQueueOverwriteFromISR(QueueHandle_t h, const void* p, BaseType_t* w) { if(w) *w = pdTRUE; return over(h, p, "overwrite_isr"); }
BaseType_t xQueueReset(QueueHandle_t h) { kernel.want(h, "reset", {Queue}); h->items.clear(); return pdPASS; }
BaseType_t xQueueGetStaticBuffers(QueueHandle_t h, uint8_t** b, StaticQueue_t** s) { kernel.want(h, "buffers", {Queue}); if(!h->buffer) return pdFALSE; *b = h->buffer; *s = (StaticQueue_t*)h->storage; return pdTRUE; }

TimerHandle_t xTimerCreateStatic(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t f, StaticTimer_t* s) { KernelHandle h = kernel.make(Timer, s); h->name = n; h->period = p; h->reload = r != pdFALSE; h->id = id; h->callback = f; return h; }
TimerHandle_t xTimerCreate(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t f) { return xTimerCreateStatic(n, p, r, id, f, nullptr); }
// a timer command is queued: the explorer decides whether the command queue takes it in time
static bool queued(TimerHandle_t h, TickType_t t, const char* call) { kernel.want(h, call, {Timer}); kernel.block = t; kernel.waited = true; return kernel.rescued = mc::current->flip(); }
BaseType_t xTimerDelete(TimerHandle_t h, TickType_t t) { kernel.end(h, "delete", {Timer}); kernel.block = t; return pdPASS; }
BaseType_t xTimerStart(TimerHandle_t h, TickType_t t) { if(!queued(h, t, "start")) return pdFAIL; h->active = true; h->expiry = kernel.now + h->period; return pdPASS; }
BaseType_t xTimerStartFromISR(TimerHandle_t h, BaseType_t* w) { if(!queued(h, 0, "start_isr")) return pdFAIL; if(w) *w = pdTRUE; h->active = true; h->expiry = kernel.now + h->period; return pdPASS; }
BaseType_t xTimerStop(TimerHandle_t h, TickType_t t) { if(!queued(h, t, "stop")) return pdFAIL; h->active = false; return pdPASS; }
BaseType_t xTimerStopFromISR(TimerHandle_t h, BaseType_t* w) { if(!queued(h, 0, "stop_isr")) return pdFAIL; if(w) *w = pdTRUE; h->active = false; return pdPASS; }
BaseType_t xTimerReset(TimerHandle_t h, TickType_t t) { if(!queued(h, t, "reset")) return pdFAIL; h->active = true; h->expiry = kernel.now + h->period; return pdPASS; }
BaseType_t xTimerResetFromISR(TimerHandle_t h, BaseType_t* w) { if(!queued(h, 0, "reset_isr")) return pdFAIL; if(w) *w = pdTRUE; h->active = true; h->expiry = kernel.now + h->period; return pdPASS; }
BaseType_t xTimerChangePeriod(TimerHandle_t h, TickType_t p, TickType_t t) { if(!queued(h, t, "change_period")) return pdFAIL; h->period = p; h->active = true; h->expiry = kernel.now + p; return pdPASS; }
void vTimerSetTimerID(TimerHandle_t h, void* id) { kernel.want(h, "set_id", {Timer}); h->id = id; }
void* pvTimerGetTimerID(TimerHandle_t h) { kernel.want(h, "get_id", {Timer}); return h->id; }
const char* pcTimerGetName(TimerHandle_t h) { kernel.want(h, "name", {Timer}); return h->name; }
TickType_t xTimerGetExpiryTime(TimerHandle_t h) { kernel.want(h, "expiry", {Timer}); return h->expiry; }
TickType_t xTimerGetPeriod(TimerHandle_t h) { kernel.want(h, "period", {Timer}); return h->period; }
BaseType_t xTimerIsTimerActive(TimerHandle_t h) { kernel.want(h, "active", {Timer}); return h->active ? pdTRUE : pdFALSE; }
static struct { PendedFunction_t f; void* p; uint32_t v; TickType_t t; bool isr; } pended;
BaseType_t xTimerPendFunctionCall(PendedFunction_t f, void* p, uint32_t v, TickType_t t) { pended = {f, p, v, t, false}; return (kernel.rescued = mc::current->flip()) ? pdPASS : pdFAIL; }
BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t f, void* p, uint32_t v, BaseType_t* w) { pended = {f, p, v, 0, true}; if(w) *w = pdTRUE; return (kernel.rescued = mc::current->flip()) ? pdPASS : pdFAIL; }

EventGroupHandle_t xEventGroupCreate() { return kernel.make(Events, nullptr); }
EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t* s) { return kernel.make(Events, s); }
void vEventGroupDelete(EventGroupHandle_t h) { kernel.end(h, "delete", {Events}); }
EventBits_t xEventGroupClearBits(EventGroupHandle_t h, EventBits_t b) { kernel.want(h, "clear_bits", {Events}); EventBits_t was = h->bits; h->bits &= ~b; return was; }
BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t h, EventBits_t b) { kernel.want(h, "clear_bits_isr", {Events}); h->bits &= ~b; return pdPASS; }
EventBits_t xEventGroupSetBits(EventGroupHandle_t h, EventBits_t b) { kernel.want(h, "set_bits", {Events}); return h->bits |= b; }
BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t h, EventBits_t b, BaseType_t* w) { kernel.want(h, "set_bits_isr", {Events}); h->bits |= b; if(w) *w = pdTRUE; return pdPASS; }
static bool there(EventGroupHandle_t h, EventBits_t b, bool all) { return all ? (h->bits & b) == b : (h->bits & b) != 0; }
EventBits_t xEventGroupWaitBits(EventGroupHandle_t h, EventBits_t b, BaseType_t clear, BaseType_t all, TickType_t t)
{
    kernel.want(h, "wait_bits", {Events}); kernel.ticks = t; mc::Ctx& c = *mc::current; CHECK(b, "wait: for no bit");
    if(!there(h, b, all)) { if(!kernel.wait(t)) return h->bits; h->bits |= all ? b : b & -b; }
    EventBits_t r = h->bits; if(clear) h->bits &= ~b; return r;
}
EventBits_t xEventGroupSync(EventGroupHandle_t h, EventBits_t set, EventBits_t b, TickType_t t)
{
    kernel.want(h, "sync", {Events}); kernel.ticks = t; mc::Ctx& c = *mc::current; CHECK(b, "wait: for no bit"); h->bits |= set;
    if(!there(h, b, true)) { if(!kernel.wait(t)) return h->bits; h->bits |= b; }
    EventBits_t r = h->bits; h->bits &= ~b; return r;
}

TickType_t xTaskGetTickCount() { return kernel.now; }
void vTaskDelay(TickType_t t) { kernel.calls += "delay "; kernel.ticks = t; kernel.now += t; }
void taskYIELD() { kernel.calls += "yield "; }
TaskHandle_t xTaskGetCurrentTaskHandle() { return &kernel.tasks[kernel.task]; }
static struct { uint32_t value; int action; UBaseType_t index; bool isr; } notified;
static BaseType_t notify(TaskHandle_t h, const char* call, uint32_t v, int a, UBaseType_t i, bool isr) { kernel.want(h, call, {Task}); notified = {v, a, i, isr}; return mc::current->flip() ? pdPASS : pdFAIL; }
BaseType_t xTaskNotifyGive(TaskHandle_t h) { return notify(h, "notify_give", 0, eIncrement, 0, false); }
BaseType_t xTaskNotifyGiveIndexed(TaskHandle_t h, UBaseType_t i) { return notify(h, "notify_give_indexed", 0, eIncrement, i, false); }
void vTaskNotifyGiveFromISR(TaskHandle_t h, BaseType_t* w) { notify(h, "notify_give_isr", 0, eIncrement, 0, true); if(w) *w = pdTRUE; }
BaseType_t xTaskNotify(TaskHandle_t h, uint32_t v, eNotifyAction a) { return notify(h, "notify", v, a, 0, false); }
BaseType_t xTaskNotifyFromISR(TaskHandle_t h, uint32_t v, eNotifyAction a, BaseType_t* w) { BaseType_t r = notify(h, "notify_isr", v, a, 0, true); if(w) *w = pdTRUE; return r; }
uint32_t ulTaskNotifyValueClear(TaskHandle_t h, uint32_t b) { kernel.want(h, "notify_value_clear", {Task}); notified = {b, -1, 0, false}; return 0x1234 | b; }
BaseType_t xTaskNotifyStateClear(TaskHandle_t h) { kernel.want(h, "notify_state_clear", {Task}); return mc::current->flip() ? pdTRUE : pdFALSE; }
const char* pcTaskGetName(TaskHandle_t h) { kernel.want(h, "name", {Task}); return h->name; }
void vTaskResume(TaskHandle_t h) { kernel.want(h, "resume", {Task}); h->active = true; }
void vTaskSuspend(TaskHandle_t h) { kernel.want(h, "suspend", {Task}); h->active = false; }
eTaskState eTaskGetState(TaskHandle_t h) { kernel.want(h, "state", {Task}); return h->active ? eReady : eSuspended; }
void vTaskDelete(TaskHandle_t h) { kernel.end(h, "delete", {Task}); }
TaskHandle_t xTaskCreateStatic(TaskFunction_t f, const char* n, uint32_t depth, void* p, UBaseType_t prio, StackType_t* st, StaticTask_t* s) { KernelHandle h = kernel.make(Task, s); h->code = f; h->name = n; h->stack = depth; h->param = p; h->priority = prio; h->stack_at = st; h->active = true; if(st) memset(st, 0x5A, depth * sizeof *st); return h; }
BaseType_t xTaskCreate(TaskFunction_t f, const char* n, configSTACK_DEPTH_TYPE depth, void* p, UBaseType_t prio, TaskHandle_t* out) { if(!mc::current->flip()) return -1; *out = xTaskCreateStatic(f, n, depth, p, prio, nullptr, nullptr); return pdPASS; }
