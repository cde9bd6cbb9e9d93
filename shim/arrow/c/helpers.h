#pragma once
#include <assert.h>
#include <string.h>

#include "arrow/c/abi.h"

inline int ArrowSchemaIsReleased(const struct ArrowSchema* schema) { return schema->release == nullptr; }
inline void ArrowSchemaMarkReleased(struct ArrowSchema* schema) { schema->release = nullptr; }
inline void ArrowSchemaMove(struct ArrowSchema* src, struct ArrowSchema* dest) {
    assert(dest != src);
    assert(!ArrowSchemaIsReleased(src));
    memcpy(dest, src, sizeof(struct ArrowSchema));
    ArrowSchemaMarkReleased(src);
}
inline void ArrowSchemaRelease(struct ArrowSchema* schema) {
    if (!ArrowSchemaIsReleased(schema)) {
        schema->release(schema);
        assert(ArrowSchemaIsReleased(schema));
    }
}
inline int ArrowArrayIsReleased(const struct ArrowArray* array) { return array->release == nullptr; }
inline void ArrowArrayMarkReleased(struct ArrowArray* array) { array->release = nullptr; }
inline void ArrowArrayMove(struct ArrowArray* src, struct ArrowArray* dest) {
    assert(dest != src);
    assert(!ArrowArrayIsReleased(src));
    memcpy(dest, src, sizeof(struct ArrowArray));
    ArrowArrayMarkReleased(src);
}
inline void ArrowArrayRelease(struct ArrowArray* array) {
    if (!ArrowArrayIsReleased(array)) {
        array->release(array);
        assert(ArrowArrayIsReleased(array));
    }
}
