
// appended to the scratch copy of common.h for the symbolic build only: the
// same address arithmetic, without the detour through integers
#undef DEF_CONTAINER_OF
#define DEF_CONTAINER_OF(structure, member, member_type) \
    static inline structure *structure ## _ ## member ## _container_of( \
            const member_type *ptr){ \
        if(ptr == NULL) return NULL; \
        return (structure*)((char*)ptr - offsetof(structure, member)); \
    }
