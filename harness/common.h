// Shared pieces of the harnesses: a minimal coroutine type whose frame frees itself, and coroutine helpers.
#pragma once
#include "vp.h"
#include <coroutine>
#include <exception>
struct co {
	struct promise_type {
		co get_return_object() { return {}; }
		std::suspend_never initial_suspend() noexcept { return {}; }
		std::suspend_never final_suspend() noexcept { return {}; }
		void return_void() {}
		void unhandled_exception() { vp_check(0, "an exception escaped from a harness coroutine"); }
	};
};
