H = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <Zycore/List.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = [
 dict(id="list-buffer-capacity", prop="L01",
  edits=[("src/List.c", "            if (size + (sizeof(ZyanListNode) + list->element_size) > list->capacity)\n",
          "            if (list->capacity - size < list->element_size)\n")],
  needs="a custom buffer with room for the element but not for the node header behind the last node",
  breaks="the last node extends beyond the custom buffer",
  demo=H + r'''
int main(void)
{
    static struct { ZyanU64 room[9]; ZyanU64 guard[4]; } m;
    ZyanList l;
    ZyanU64 v = 7;
    memset(&m, 0xAA, sizeof(m));
    CHECK(ZYAN_SUCCESS(ZyanListInitCustomBuffer(&l, sizeof(ZyanU64), ZYAN_NULL, m.room, sizeof(m.room) - sizeof(ZyanU64))));
    CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZyanListPushBack(&l, &v) == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE);
    for (int i = 0; i < 32; ++i)
        CHECK(((ZyanU8*)m.guard)[i] == 0xAA);
    return 0;
}
'''),
 dict(id="list-reuse-lost", prop="L01",
  edits=[("src/List.c", "        node->next = list->first_unused;\n        list->first_unused = node;\n",
          "        if (list->first_unused)\n        {\n            node->prev = list->first_unused->prev;\n        }\n        node->next = list->first_unused ? list->first_unused->next : ZYAN_NULL;\n        list->first_unused = node;\n")],
  needs="a fixed-buffer list from which two elements are removed before two are added again",
  breaks="an unused node is forgotten; the next insertion takes memory of a node that is still linked",
  demo=H + r'''
int main(void)
{
    static ZyanU64 room[64];
    ZyanList l;
    ZyanU64 v = 1;
    const ZyanListNode* n;
    int c = 0;
    CHECK(ZYAN_SUCCESS(ZyanListInitCustomBuffer(&l, sizeof(ZyanU64), ZYAN_NULL, room, sizeof(room))));
    for (v = 1; v <= 4; ++v)
        CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZYAN_SUCCESS(ZyanListPopFront(&l)));
    CHECK(ZYAN_SUCCESS(ZyanListPopFront(&l)));
    for (v = 5; v <= 6; ++v)
        CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZYAN_SUCCESS(ZyanListGetHeadNode(&l, &n)));
    for (v = 3; v <= 6; ++v, ++c)
    {
        CHECK(n && *(const ZyanU64*)ZyanListGetNodeData(n) == v);
        CHECK(ZYAN_SUCCESS(ZyanListGetNextNode(&n)));
    }
    CHECK(!n);
    return 0;
}
'''),
 dict(id="list-popfront-prev", prop="L01",
  edits=[("src/List.c", """    list->head = node->next;
    if (list->head)
    {
        list->head->prev = ZYAN_NULL;
    }
    if (list->tail == node)
    {
        list->tail = list->head;
    }
    --list->size;
""", """    list->head = node->next;
    if (list->tail == node)
    {
        list->tail = list->head;
    } else
    {
        if (list->head != list->tail)
        {
            list->head->prev = ZYAN_NULL;
        }
    }
    --list->size;
""")],
  needs="PopFront on a list of exactly two elements, followed by backward iteration or PopBack",
  breaks="the remaining node keeps a backward link to the released node",
  demo=H + r'''
int main(void)
{
    ZyanList l;
    ZyanU32 v = 1;
    const ZyanListNode* n;
    CHECK(ZYAN_SUCCESS(ZyanListInit(&l, sizeof(v), ZYAN_NULL)));
    CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZYAN_SUCCESS(ZyanListPopFront(&l)));
    CHECK(ZYAN_SUCCESS(ZyanListGetTailNode(&l, &n)));
    CHECK(n);
    CHECK(ZYAN_SUCCESS(ZyanListGetPrevNode(&n)));
    CHECK(!n);
    ZyanListDestroy(&l);
    return 0;
}
'''),
 dict(id="list-set-order", prop="L02",
  edits=[("src/List.c", """    if (list->destructor)
    {
        list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
    }

    ZYAN_ASSERT(list->element_size);
    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), value, list->element_size);
""", """    ZYAN_ASSERT(list->element_size);
    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), value, list->element_size);

    if (list->destructor)
    {
        list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
    }
""")],
  needs="a list with a destructor whose elements are replaced with ZyanListSetNodeData",
  breaks="the destructor releases the new value instead of the replaced one",
  demo=H + r'''
static ZyanU32 seen;
static void dtor(void* p) { seen = *(ZyanU32*)p; }
int main(void)
{
    ZyanList l;
    ZyanU32 v = 1;
    const ZyanListNode* n;
    CHECK(ZYAN_SUCCESS(ZyanListInit(&l, sizeof(v), dtor)));
    CHECK(ZYAN_SUCCESS(ZyanListPushBack(&l, &v)));
    CHECK(ZYAN_SUCCESS(ZyanListGetHeadNode(&l, &n)));
    v = 2;
    CHECK(ZYAN_SUCCESS(ZyanListSetNodeData(&l, n, &v)));
    CHECK(seen == 1);
    ZyanListDestroy(&l);
    return 0;
}
'''),
 dict(id="list-grow-init", prop="L02",
  edits=[("src/List.c", """            if (initializer)
            {
                ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), initializer, list->element_size);
            }

            if (!list->head)
            {
                list->head = node;
                list->tail = node;
            } else
            {
                list->tail->next = node;
                list->tail = node;
            }
""", """            if (!list->head)
            {
                list->head = node;
                list->tail = node;
            } else
            {
                list->tail->next = node;
                list->tail = node;
                if (initializer)
                {
                    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), initializer, list->element_size);
                }
            }
""")],
  needs="ZyanListResizeEx with an initial value on an empty list",
  breaks="the first new element keeps whatever its memory held",
  demo=H + r'''
int main(void)
{
    static ZyanU64 room[64];
    ZyanList l;
    ZyanU32 v = 77;
    const ZyanListNode* n;
    memset(room, 0x11, sizeof(room));
    CHECK(ZYAN_SUCCESS(ZyanListInitCustomBuffer(&l, sizeof(ZyanU64), ZYAN_NULL, room, sizeof(room))));
    ZyanU64 x = 77;
    CHECK(ZYAN_SUCCESS(ZyanListResizeEx(&l, 3, &x)));
    CHECK(ZYAN_SUCCESS(ZyanListGetHeadNode(&l, &n)));
    for (int i = 0; i < 3; ++i)
    {
        CHECK(n && *(const ZyanU64*)ZyanListGetNodeData(n) == 77);
        CHECK(ZYAN_SUCCESS(ZyanListGetNextNode(&n)));
    }
    return 0;
}
'''),
 dict(id="list-size-first", prop="L03",
  edits=[("src/List.c", """    node->prev = ZYAN_NULL;
    node->next = list->head;

    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), item, list->element_size);

    if (!list->head)
    {
        list->head = node;
        list->tail = node;
    } else
    {
        list->head->prev= node;
        list->head = node;
    }
    ++list->size;
""", """    node->prev = ZYAN_NULL;
    node->next = list->head;

    ZYAN_MEMCPY(ZYCORE_LIST_GET_NODE_DATA(node), item, list->element_size);

    if (!list->head)
    {
        list->head = node;
        list->tail = node;
    } else
    {
        list->head->prev= node;
        list->head = node;
    }
"""), ("src/List.c", """ZyanStatus ZyanListPushFront(ZyanList* list, const void* item)
{
    if (!list || !item)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    ZyanListNode* node;
    ZYAN_CHECK(ZyanListAllocateNode(list, &node));
""", """ZyanStatus ZyanListPushFront(ZyanList* list, const void* item)
{
    if (!list || !item)
    {
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }

    ZyanListNode* node;
    if (list->allocator)
    {
        ++list->size;
        ZYAN_CHECK(ZyanListAllocateNode(list, &node));
    } else
    {
        ZYAN_CHECK(ZyanListAllocateNode(list, &node));
        ++list->size;
    }
""")],
  needs="an allocation failure in ZyanListPushFront",
  breaks="a failed PushFront leaves the list one element too large",
  demo=H + r'''
static ZyanStatus aa(ZyanAllocator* a, void** p, ZyanUSize e, ZyanUSize n) { return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
static ZyanStatus ad(ZyanAllocator* a, void* p, ZyanUSize e, ZyanUSize n) { return ZYAN_STATUS_SUCCESS; }
int main(void)
{
    ZyanAllocator al;
    ZyanList l;
    ZyanU32 v = 1;
    ZyanUSize n;
    CHECK(ZYAN_SUCCESS(ZyanAllocatorInit(&al, aa, aa, ad)));
    CHECK(ZYAN_SUCCESS(ZyanListInitEx(&l, sizeof(v), ZYAN_NULL, &al)));
    CHECK(ZyanListPushFront(&l, &v) == ZYAN_STATUS_NOT_ENOUGH_MEMORY);
    CHECK(ZYAN_SUCCESS(ZyanListGetSize(&l, &n)));
    CHECK(n == 0);
    return 0;
}
'''),
]
