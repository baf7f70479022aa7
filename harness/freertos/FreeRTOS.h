// A stand-in for the FreeRTOS kernel: the same calls, every one of which is handed to kernel.h's model of it.
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef long BaseType_t; typedef unsigned long UBaseType_t; typedef uint32_t TickType_t; typedef unsigned long StackType_t; typedef uint32_t EventBits_t;
#define pdTRUE ((BaseType_t)1)
#define pdFALSE ((BaseType_t)0)
#define pdPASS pdTRUE
#define pdFAIL pdFALSE
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
#define configSUPPORT_STATIC_ALLOCATION 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configUSE_TASK_NOTIFICATIONS 1
#define configUSE_TRACE_FACILITY 0
#define configUSE_APPLICATION_TASK_TAG 0
#define configQUEUE_REGISTRY_SIZE 1
#define configSTACK_DEPTH_TYPE uint16_t
#ifndef configTICK_RATE_HZ
#define configTICK_RATE_HZ 100
#endif
#define portTICK_PERIOD_MS ((TickType_t)1000 / configTICK_RATE_HZ)
#define tskKERNEL_VERSION_MAJOR 10
#define tskKERNEL_VERSION_MINOR 4
#define tskKERNEL_VERSION_BUILD 3
typedef struct KernelObject* KernelHandle;
typedef KernelHandle QueueHandle_t, SemaphoreHandle_t, TimerHandle_t, EventGroupHandle_t, TaskHandle_t;
struct StaticStorage { unsigned long mine[4]; };
typedef StaticStorage StaticSemaphore_t, StaticQueue_t, StaticTimer_t, StaticEventGroup_t, StaticTask_t;
