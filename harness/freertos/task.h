#pragma once
#include <FreeRTOS.h>
typedef void (*TaskFunction_t)(void*);
enum eNotifyAction { eNoAction, eSetBits, eIncrement, eSetValueWithOverwrite, eSetValueWithoutOverwrite };
enum eTaskState { eRunning, eReady, eBlocked, eSuspended, eDeleted, eInvalid };
TickType_t xTaskGetTickCount(); void vTaskDelay(TickType_t); void taskYIELD(); TaskHandle_t xTaskGetCurrentTaskHandle();
BaseType_t xTaskNotifyGive(TaskHandle_t); BaseType_t xTaskNotifyGiveIndexed(TaskHandle_t, UBaseType_t); void vTaskNotifyGiveFromISR(TaskHandle_t, BaseType_t*); BaseType_t xTaskNotify(TaskHandle_t, uint32_t, eNotifyAction); BaseType_t xTaskNotifyFromISR(TaskHandle_t, uint32_t, eNotifyAction, BaseType_t*);
uint32_t ulTaskNotifyValueClear(TaskHandle_t, uint32_t); BaseType_t xTaskNotifyStateClear(TaskHandle_t); const char* pcTaskGetName(TaskHandle_t); void vTaskResume(TaskHandle_t); void vTaskSuspend(TaskHandle_t); eTaskState eTaskGetState(TaskHandle_t); void vTaskDelete(TaskHandle_t);
BaseType_t xTaskCreate(TaskFunction_t, const char*, configSTACK_DEPTH_TYPE, void*, UBaseType_t, TaskHandle_t*);
TaskHandle_t xTaskCreateStatic(TaskFunction_t, const char*, uint32_t, void*, UBaseType_t, StackType_t*, StaticTask_t*);
