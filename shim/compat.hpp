// Force-included in front of every translation unit of the extension module:
// pybind11 2.11 (the only one installed) lacks py::mod_gil_not_used and the
// variadic form of PYBIND11_MODULE that /repo uses.
#pragma once
#include <pybind11/pybind11.h>
namespace pybind11 {
struct vk_mod_gil_not_used {};
inline auto mod_gil_not_used() -> vk_mod_gil_not_used { return {}; }
}  // namespace pybind11
#define VK_PYBIND11_MODULE_2(name, variable)                                 \
    static ::pybind11::module_::module_def PYBIND11_CONCAT(                  \
        pybind11_module_def_, name) PYBIND11_MAYBE_UNUSED;                   \
    PYBIND11_MAYBE_UNUSED                                                    \
    static void PYBIND11_CONCAT(pybind11_init_, name)(::pybind11::module_ &);\
    PYBIND11_PLUGIN_IMPL(name) {                                             \
        PYBIND11_CHECK_PYTHON_VERSION                                        \
        PYBIND11_ENSURE_INTERNALS_READY                                      \
        auto m = ::pybind11::module_::create_extension_module(               \
            PYBIND11_TOSTRING(name), nullptr,                                \
            &PYBIND11_CONCAT(pybind11_module_def_, name));                   \
        try {                                                                \
            PYBIND11_CONCAT(pybind11_init_, name)(m);                        \
            return m.ptr();                                                  \
        }                                                                    \
        PYBIND11_CATCH_INIT_EXCEPTIONS                                       \
    }                                                                        \
    void PYBIND11_CONCAT(pybind11_init_, name)(::pybind11::module_ & (variable))
#undef PYBIND11_MODULE
#define PYBIND11_MODULE(name, variable, ...) VK_PYBIND11_MODULE_2(name, variable)
