// Linked with -Wl,--wrap: notes where a library assertion fired, then runs the library's own handler.
namespace mc { void noteAssert(const char* file, unsigned line); }
extern "C" bool __real__ZN11FUAssertion17OnAssertionFailedEPKcj(const char* f, unsigned l);
extern "C" bool __wrap__ZN11FUAssertion17OnAssertionFailedEPKcj(const char* f, unsigned l)
{
	mc::noteAssert(f, l);
	return __real__ZN11FUAssertion17OnAssertionFailedEPKcj(f, l);
}
