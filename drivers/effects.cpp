// Effects that the analysis has to notice, one per function: each run of the check looks at these first.
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <atomic>
#include <cfenv>
static int counter;
static thread_local unsigned last;
static char table[4];
static std::atomic<int> flag;
static std::mutex mu;
int setting = 3;
static int& ref() { return counter; }
static void put(int* p) { *p = 1; }
extern "C" {
int ef_state(int x) { return counter += x; }
int ef_state_thread(int x) { last = x; return 0; }
int ef_state_copy(char const* x) { std::memcpy(table, x, 4); return 0; }
int ef_state_ref(int x) { ref() = x; return 0; }
int ef_state_arg(int) { put(&counter); return 0; }
int ef_state_atomic(int x) { return flag.fetch_add(x); }
int ef_state_first(int x) { static int const s = std::rand(); return s + x; }
int ef_state_read(int x) { return setting + x; }
void other_changes_it(int x) { setting = x; }
int ef_floating_add(double x) { return x + 1 > 2; }
int ef_floating_compare(double x) { return x == 0; }
int ef_floating_convert(int x) { double d = x; long long b; std::memcpy(&b, &d, 8); return (int)(b >> 52); }
int ef_allocation(int x) { int* p = new int(x); int r = *p; delete p; return r; }
int ef_lock(int x) { std::lock_guard<std::mutex> g(mu); return x; }
int ef_exception(int x) { if (x) throw x; return x; }
int ef_environment(int) { return std::fegetround(); }
int clean_1(int x) { static int const t[3] = { 1, 2, 3 }; return t[x % 3u]; }
int clean_2(int x) { static int t[3] = { 1, 2, 3 }; return t[x % 3u]; }
double clean_3(double x) { return -x; }
}
