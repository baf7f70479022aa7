#pragma once
#include <FreeRTOS.h>
typedef void (*TimerCallbackFunction_t)(TimerHandle_t); typedef void (*PendedFunction_t)(void*, uint32_t);
TimerHandle_t xTimerCreate(const char*, TickType_t, UBaseType_t, void*, TimerCallbackFunction_t); TimerHandle_t xTimerCreateStatic(const char*, TickType_t, UBaseType_t, void*, TimerCallbackFunction_t, StaticTimer_t*);
BaseType_t xTimerDelete(TimerHandle_t, TickType_t); BaseType_t xTimerStart(TimerHandle_t, TickType_t); BaseType_t xTimerStartFromISR(TimerHandle_t, BaseType_t*); BaseType_t xTimerStop(TimerHandle_t, TickType_t); BaseType_t xTimerStopFromISR(TimerHandle_t, BaseType_t*); BaseType_t xTimerReset(TimerHandle_t, TickType_t); BaseType_t xTimerResetFromISR(TimerHandle_t, BaseType_t*); BaseType_t xTimerChangePeriod(TimerHandle_t, TickType_t, TickType_t);
void vTimerSetTimerID(TimerHandle_t, void*); void* pvTimerGetTimerID(TimerHandle_t); const char* pcTimerGetName(TimerHandle_t); TickType_t xTimerGetExpiryTime(TimerHandle_t); TickType_t xTimerGetPeriod(TimerHandle_t); BaseType_t xTimerIsTimerActive(TimerHandle_t);
BaseType_t xTimerPendFunctionCall(PendedFunction_t, void*, uint32_t, TickType_t); BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t, void*, uint32_t, BaseType_t*);
