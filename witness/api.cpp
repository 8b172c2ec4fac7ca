// Instantiates the templates of the public API, so that they can be analysed (never compiled into anything or run).
#include <hsmcpp/hsm.hpp>

using namespace hsmcpp;

struct Handler {
    void changed(const VariantVector_t&);
    bool entering(const VariantVector_t&);
    bool exiting();
    void transition(const VariantVector_t&);
    bool condition(const VariantVector_t&);
    void failed(const std::list<StateID_t>&, const EventID_t, const VariantVector_t&);
};

void instantiate(HierarchicalStateMachine& hsm, Handler* handler, int a, const char* b, double c);
void instantiate(HierarchicalStateMachine& hsm, Handler* handler, int a, const char* b, double c) {
    hsm.registerFailedTransitionCallback<Handler>(handler, &Handler::failed);
    hsm.registerState<Handler>(1, handler, &Handler::changed, &Handler::entering, &Handler::exiting);
    hsm.registerFinalState<Handler>(1, 2, handler, &Handler::changed, &Handler::entering, &Handler::exiting);
    hsm.registerHistory<Handler>(1, 2, HistoryType::DEEP, 3, handler, &Handler::transition);
    (void)hsm.registerSubstateEntryPoint<Handler>(1, 2, 3, handler, &Handler::condition, false);
    hsm.registerTransition<Handler>(1, 2, 3, handler, &Handler::transition, &Handler::condition, false);
    hsm.registerSelfTransition<Handler>(1, 2, TransitionType::INTERNAL_TRANSITION, handler, &Handler::transition, &Handler::condition, false);
    (void)hsm.registerStateAction(1, StateActionTrigger::ON_STATE_ENTRY, StateAction::TRANSITION, a, b, c);
    hsm.transition(1, a, b, c);
    (void)hsm.transitionEx(1, true, true, 5, a, b, c);
    (void)hsm.transitionSync(1, 5, a, b, c);
    hsm.transitionWithQueueClear(1, a, b, c);
    (void)hsm.isTransitionPossible(1, a, b, c);
}
