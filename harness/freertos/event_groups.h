#pragma once
#include <FreeRTOS.h>
EventGroupHandle_t xEventGroupCreate(); EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t*); void vEventGroupDelete(EventGroupHandle_t);
EventBits_t xEventGroupClearBits(EventGroupHandle_t, EventBits_t); BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t, EventBits_t); EventBits_t xEventGroupWaitBits(EventGroupHandle_t, EventBits_t, BaseType_t, BaseType_t, TickType_t); EventBits_t xEventGroupSetBits(EventGroupHandle_t, EventBits_t); BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t, EventBits_t, BaseType_t*); EventBits_t xEventGroupSync(EventGroupHandle_t, EventBits_t, EventBits_t, TickType_t);
