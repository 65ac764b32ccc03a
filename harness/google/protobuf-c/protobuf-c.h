/* The part of protobuf-c's interface libmy/ubuf-pb.h needs (the library is not installed here). */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct ProtobufCBuffer ProtobufCBuffer;
struct ProtobufCBuffer { void (*append)(ProtobufCBuffer *buffer, size_t len, const uint8_t *data); };
