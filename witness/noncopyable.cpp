// Compile-time witness for P11: compiles only if the wrappers can not be copied, so that no lock has two owners.
#include <type_traits>
#include <utility>
#include "hsmcpp/os/AtomicFlag.hpp"
#include "hsmcpp/os/ConditionVariable.hpp"
#include "hsmcpp/os/CriticalSection.hpp"
#include "hsmcpp/os/InterruptsFreeSection.hpp"
#include "hsmcpp/os/LockGuard.hpp"
#include "hsmcpp/os/Mutex.hpp"
#include "hsmcpp/os/UniqueLock.hpp"
#define SINGLE(T) \
    static_assert(!std::is_copy_constructible<hsmcpp::T>::value, #T " can be copied"); \
    static_assert(!std::is_copy_assignable<hsmcpp::T>::value, #T " can be assigned")
SINGLE(LockGuard);
SINGLE(UniqueLock);
SINGLE(CriticalSection);
SINGLE(InterruptsFreeSection);
SINGLE(Mutex);
SINGLE(ConditionVariable);
SINGLE(AtomicFlag);
static_assert(!std::is_move_constructible<hsmcpp::Mutex>::value, "Mutex can be moved");
