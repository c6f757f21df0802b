// Faults of the Python process itself.
//
// Interrupts: the interpreter looks for signals when a function is entered, when a loop goes back
// and when most calls of compiled functions return.  A pending call that puts itself back in the
// queue runs at every one of these points (NPENDING times at each), so that they can be counted and
// KeyboardInterrupt raised at exactly the n-th.
//
// Memory: the allocator of NumPy's arrays is replaced by one that fails at the n-th allocation.
#include <Python.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

// Where the points fall, while they are only counted (target 0): for each one a hash of the innermost
// frame of the package that is on the stack, and of whether it is the running one; 0 if there is none.
static uint64_t* place;
static uint64_t n_place, cap_place;

static void note_place(void)
{
    if (n_place == cap_place) {
        cap_place = cap_place ? 2*cap_place : 4096;
        place = (uint64_t*) realloc(place, cap_place * sizeof(uint64_t));
        if (!place) abort();
    }
    uint64_t h = 0;
    int top = 1;
    PyFrameObject* f = PyEval_GetFrame();
    Py_XINCREF(f);
    while (f) {
        PyCodeObject* co = PyFrame_GetCode(f);
        const char* name = PyUnicode_AsUTF8(co->co_filename);
        if (name && strstr(name, "/treecorr/")) {
            h = 1469598103934665603ULL;
            for (; *name; name++) h = (h ^ (unsigned char)*name) * 1099511628211ULL;
            h = (h ^ (uint64_t)PyFrame_GetLineNumber(f)) * 1099511628211ULL;
            h = ((h ^ top) * 1099511628211ULL) | 1;
        }
        Py_DECREF(co);
        PyFrameObject* b = h ? 0 : PyFrame_GetBack(f);
        Py_DECREF(f);
        f = b;
        top = 0;
    }
    place[n_place++] = h;
}
uint64_t simpy_places(uint64_t** p) { *p = place; return n_place; }

static uint64_t int_count, int_target;
static int int_on, int_hit, queued;

static int pending(void* arg)
{
    if (!int_on) { queued = 0; return 0; }
    if (++int_count == int_target) {
        int_on = 0; int_hit = 1; queued = 0;
        PyErr_SetString(PyExc_KeyboardInterrupt, "injected");
        return -1;
    }
    if (!int_target && int_count % 32 == 1) note_place();
    Py_AddPendingCall(pending, 0);
    return 0;
}

void simpy_int_arm(uint64_t target)
{
    n_place = 0;
    int_count = 0; int_target = target; int_hit = 0; int_on = 1;
    if (!queued) { queued = 1; Py_AddPendingCall(pending, 0); }
}
uint64_t simpy_int_disarm(void) { int_on = 0; return int_count; }
int simpy_int_hit(void) { return int_hit; }

// ------------------------------------------------------------------------------------------------
typedef struct {
    void* ctx;
    void* (*malloc)(void*, size_t);
    void* (*calloc)(void*, size_t, size_t);
    void* (*realloc)(void*, void*, size_t);
    void (*free)(void*, void*, size_t);
} Allocator;
typedef struct { char name[127]; uint8_t version; Allocator allocator; } Handler;

static uint64_t mem_count, mem_target;
static int mem_on, mem_hit;
static int fails(void)
{
    if (!mem_on) return 0;
    if (++mem_count == mem_target) { mem_on = 0; mem_hit = 1; return 1; }
    if (!mem_target && PyGILState_Check()) note_place();
    return 0;
}
static void* h_malloc(void* c, size_t n) { return fails() ? 0 : malloc(n ? n : 1); }
static void* h_calloc(void* c, size_t n, size_t m) { return fails() ? 0 : calloc(n ? n : 1, m ? m : 1); }
static void* h_realloc(void* c, void* p, size_t n) { return fails() ? 0 : realloc(p, n ? n : 1); }
static void h_free(void* c, void* p, size_t n) { free(p); }
static Handler handler = { "simpy", 1, { 0, h_malloc, h_calloc, h_realloc, h_free } };

// Install; api: the table of the NumPy C API.
int simpy_mem_install(void** api)
{
    PyObject* cap = PyCapsule_New(&handler, "mem_handler", 0);
    if (!cap) return -1;
    PyObject* old = ((PyObject* (*)(PyObject*))api[304])(cap);
    Py_DECREF(cap);
    if (!old) return -1;
    Py_DECREF(old);
    return 0;
}
void simpy_mem_arm(uint64_t target) { n_place = 0; mem_count = 0; mem_target = target; mem_hit = 0; mem_on = 1; }
uint64_t simpy_mem_disarm(void) { mem_on = 0; return mem_count; }
int simpy_mem_hit(void) { return mem_hit; }
