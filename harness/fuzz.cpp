// libFuzzer entry: the fuzzer's bytes are the choice sequence of one sub-check (PBT_PROP, PBT_SUB).
#include "engine.hpp"
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <new>
#include <unistd.h>

using namespace pbt;

static const Sub* sub = nullptr;
static Shared* shared = nullptr;

extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	std::string id = getenv("PBT_PROP"), name = getenv("PBT_SUB");
	for(auto& s : registry()) if(s.id == id && s.name == name) sub = &s;
	if(!sub) abort();
	shared = (Shared*)calloc(1, sizeof(Shared));
	// the library talks on standard output
	int fd = open("/dev/null", O_WRONLY);
	dup2(fd, 1);
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	size_t n = size / 4;
	if(n > MAX_WORDS) n = MAX_WORDS;
	std::vector<uint32_t> words(n);
	if(n) memcpy(words.data(), data, 4 * n);
	Src src(words.data(), n, shared);
	Ctx c(src);
	c.thorough = true;
	std::string what;
	bool bad = false;
	try { sub->fn(c); }
	catch(const Discard&) { return -1; }
	catch(const std::exception& e) { bad = true; what = e.what(); }
	catch(...) { bad = true; what = "unexpected exception of unknown type"; }
	if(bad)
	{
		fprintf(stderr, "PBT VIOLATION: %s\n", what.c_str());
		abort();
	}
	return 0;
}
