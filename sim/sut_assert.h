/* Force-included before every translation unit: failed assertions become a simulated crash. */
#ifdef __cplusplus
extern "C" void sim_assert_failed(const char* expr, const char* file, int line);
#define eigen_assert(x) do { if (!(x)) sim_assert_failed(#x, __FILE__, __LINE__); } while (0)
#endif
