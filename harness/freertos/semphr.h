#pragma once
#include <FreeRTOS.h>
SemaphoreHandle_t xSemaphoreCreateBinary(); SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t, UBaseType_t); SemaphoreHandle_t xSemaphoreCreateMutex(); SemaphoreHandle_t xSemaphoreCreateRecursiveMutex();
SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t*); SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t, UBaseType_t, StaticSemaphore_t*); SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t*); SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t*);
BaseType_t xSemaphoreGive(SemaphoreHandle_t); BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t); BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t, BaseType_t*); BaseType_t xSemaphoreTake(SemaphoreHandle_t, TickType_t); BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t, TickType_t); BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t, BaseType_t*);
UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t); TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t); void vSemaphoreDelete(SemaphoreHandle_t);
