/* C13: the message queue against a reference list. MODE 1: K arbitrary operations from the initial state,
 * MODE 2: one operation from an arbitrary state that satisfies the representation invariant, checked to be preserved. */
#include "vp.h"
#include "modbus_queue.h"
#define CAP MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS
static modbus_queue_t q;
static modbus_msg_t msg[CAP + 3];
static modbus_msg_t *list[CAP + 1]; static unsigned fill;

/* one operation on queue and list; every observable result is compared */
static void step(bool do_push, unsigned m)
{
    if (do_push)
    {
        modbus_msg_t *p = &msg[m];
        modbus_queue_push(&q, &p);
        if (fill < CAP)
        {
            CHECK(p == NULL, "a successful insertion takes over the caller's reference");
            list[fill++] = &msg[m];
        }
        else
            CHECK(p == &msg[m], "a refused insertion leaves the caller's reference");
    }
    else
    {
        modbus_msg_t *r = modbus_queue_pop(&q);
        if (fill == 0)
            CHECK(r == NULL, "removal from an empty queue yields nothing");
        else
        {
            CHECK(r == list[0], "messages come out in insertion order");
            for (unsigned i = 0; i + 1 < CAP; i++) list[i] = list[i + 1];
            fill--;
        }
    }
    CHECK(q.items_in_queue == fill, "fill level");
}
/* everything that is still in the queue comes out, in order, then nothing */
static void drain(void)
{
    unsigned n = fill;
    for (unsigned i = 0; i < CAP; i++)
        if (i < n) CHECK(modbus_queue_pop(&q) == list[i], "the queue returns exactly what was stored");
    CHECK(modbus_queue_pop(&q) == NULL, "a drained queue is empty");
}
void harness(void)
{
#if MODE == 1
    modbus_queue_init(&q);
    unsigned pushes = 0, refused = 0;
    for (unsigned k = 0; k < K; k++)
    {
        bool b = in_bool(); unsigned m = in_range(0, CAP + 2);
        if (b && fill == CAP) refused++;
        if (b) pushes++;
        step(b, m);
    }
    COVER(refused == 1 && fill == CAP, "full queue refused an insertion");
    COVER(pushes > CAP && refused == 0, "wrapped around");
    COVER(fill == 2, "two left");
    drain();
#else
    /* arbitrary state: any tail, any fill, any messages */
    unsigned tail = in_range(0, CAP - 1), n = in_range(0, CAP);
    modbus_queue_init(&q);
    q.tail = (uint8_t)tail; q.items_in_queue = (uint8_t)n; q.head = (uint8_t)((tail + n) % CAP);
    for (unsigned i = 0; i < CAP; i++)
    {
        unsigned pos = (tail + i) % CAP, m = in_range(0, CAP + 2);
        if (i < n) { q.modbus_msg[pos] = &msg[m]; list[i] = &msg[m]; }
        else q.modbus_msg[pos] = in_bool() ? &msg[m] : NULL;      /* unused slots hold anything */
    }
    fill = n;
    bool b = in_bool(); unsigned m = in_range(0, CAP + 2);
    step(b, m);
    /* representation invariant preserved: the result is again one of the states this instance starts from */
    CHECK(q.tail < CAP && q.head < CAP, "indices stay within the queue");
    CHECK(q.head == (q.tail + q.items_in_queue) % CAP, "head, tail and fill level agree");
    for (unsigned i = 0; i < CAP; i++)
        if (i < fill) CHECK(q.modbus_msg[(q.tail + i) % CAP] == list[i], "stored messages are kept");
    COVER(b && n == CAP, "insert into full"); COVER(b && n == CAP - 1 && tail == CAP - 1, "fill the queue, wrapped"); COVER(!b && n == 0 && tail == CAP - 1, "remove from empty");
    COVER(!b && n == CAP, "remove from full");
#endif
}
