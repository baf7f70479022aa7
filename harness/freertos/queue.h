#pragma once
#include <FreeRTOS.h>
QueueHandle_t xQueueCreate(UBaseType_t, UBaseType_t); QueueHandle_t xQueueCreateStatic(UBaseType_t, UBaseType_t, uint8_t*, StaticQueue_t*); const char* pcQueueGetName(QueueHandle_t); void vQueueDelete(QueueHandle_t); UBaseType_t uxQueueMessagesWaiting(QueueHandle_t); UBaseType_t uxQueueSpacesAvailable(QueueHandle_t);
BaseType_t xQueueOverwrite(QueueHandle_t, const void*); BaseType_t xQueueOverwriteFromISR(QueueHandle_t, const void*, BaseType_t*); BaseType_t xQueuePeek(QueueHandle_t, void*, TickType_t); BaseType_t xQueuePeekFromISR(QueueHandle_t, void*);
BaseType_t xQueueSend(QueueHandle_t, const void*, TickType_t); BaseType_t xQueueSendFromISR(QueueHandle_t, const void*, BaseType_t*); BaseType_t xQueueSendToBack(QueueHandle_t, const void*, TickType_t); BaseType_t xQueueReceive(QueueHandle_t, void*, TickType_t); BaseType_t xQueueReset(QueueHandle_t); BaseType_t xQueueGetStaticBuffers(QueueHandle_t, uint8_t**, StaticQueue_t**);
