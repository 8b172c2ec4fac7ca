"""Mutants (name -> (properties expected to report it, edits)) and refactorings (name -> edits)."""
I = "src/HsmImpl.cpp"
M, R = {}, {}


def m(name, props, *edits):
    assert name not in M, name
    M[name] = (props, [e if len(e) == 3 else (I,) + tuple(e) for e in edits])


def r(name, *edits):
    assert name not in R, name
    R[name] = [e if len(e) == 3 else (I,) + tuple(e) for e in edits]


# ---- P15 order of callbacks
ACT = '''    if (curTransition.onTransition) {
        curTransition.onTransition(event.getArgs());
    }

    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
'''
m("t_action_after_enter", "P15", (ACT, '''    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
    if (curTransition.onTransition) {
        curTransition.onTransition(event.getArgs());
    }
'''))
m("t_exit_activation_order", "P15", ("for (auto itActiveState = mActiveStates.rbegin(); itActiveState != mActiveStates.rend(); ++itActiveState)",
                                     "for (auto itActiveState = mActiveStates.begin(); itActiveState != mActiveStates.end(); ++itActiveState)"))
m("t_changed_before_active", "P15", ('''            (void)onStateEntering(mInitialState, VariantVector_t());
            mActiveStates.emplace_back(mInitialState);
            onStateChanged(mInitialState, VariantVector_t());''', '''            (void)onStateEntering(mInitialState, VariantVector_t());
            onStateChanged(mInitialState, VariantVector_t());
            mActiveStates.emplace_back(mInitialState);'''))
m("t_startup_no_enter", "P15", ('''            (void)onStateEntering(mInitialState, VariantVector_t());
''', ""))
m("t_changed_always", "P15", ('''        if (true == replaceActiveState(curTransition.fromState, curTransition.destinationState)) {
            onStateChanged(curTransition.destinationState, event.getArgs());
        }''', '''        (void)replaceActiveState(curTransition.fromState, curTransition.destinationState);
        onStateChanged(curTransition.destinationState, event.getArgs());'''))
m("t_changed_never_for_first", "P15", ('''            onStateChanged(curTransition.destinationState, event.getArgs());
        }

        // check if current''', '''            if (INVALID_HSM_EVENT_ID != event.id) { onStateChanged(curTransition.destinationState, event.getArgs()); }
        }

        // check if current'''))
m("t_add_before_enter", "P15", ('''    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
        // NOTE: in case of history transitions source state is different from the one which is currently being processed
        if (true == replaceActiveState(curTransition.fromState, curTransition.destinationState)) {''',
 '''    const bool wasReplaced = replaceActiveState(curTransition.fromState, curTransition.destinationState);
    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
        if (true == wasReplaced) {'''))
m("t_exit_after_action", "P15", ('''        isExitAllowed = executeExitTransition(event, matchingTransitions, exitedStates);

        // proceed''', '''        for (const TransitionInfo& cur : matchingTransitions) {
            if (cur.fromState != cur.destinationState) { if (cur.onTransition) { cur.onTransition(event.getArgs()); } }
        }
        isExitAllowed = executeExitTransition(event, matchingTransitions, exitedStates);

        // proceed'''))
# ---- P16 veto
m("t_exit_veto_ignored", "P16", ('''                    if (true == isExitAllowed) {
                        outExitedStates.emplace_back(*itActiveState);
                    } else {
                        break;
                    }''', '''                    outExitedStates.emplace_back(*itActiveState);'''))
m("t_veto_no_break", "P16", ('''                // exit was blocked, so other matching transitions must not be processed
                break;''', ""))
m("t_veto_continues_exit", "P16", ('''                    } else {
                        break;
                    }
                }
            }

            // if no one''', '''                    }
                }
            }

            // if no one'''))
m("t_restore_forward", "P16", ("for (auto it = outExitedStates.rbegin(); it != outExitedStates.rend(); ++it) {", "for (auto it = outExitedStates.begin(); it != outExitedStates.end(); ++it) {"))
m("t_restore_forward2", "P16", ("for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {", "for (auto it = exitedStates.begin(); it != exitedStates.end(); ++it) {"))
m("t_restore_no_add", "P16", ('''            (void)addActiveState(*it);
            onStateChanged''', '''            onStateChanged'''))
m("t_restore_no_enter", "P16", ('''            (void)onStateEntering(*it, VariantVector_t());
            (void)addActiveState(*it);''', '''            (void)addActiveState(*it);'''))
m("t_restore_no_changed", "P16", ('''            (void)addActiveState(*it);
            onStateChanged(*it, VariantVector_t());''', '''            (void)addActiveState(*it);'''))
m("t_restore_only_if_many", "P16", ('''        // states were exited starting from children, so they must be restored in reverse order
        for (auto it = exitedStates.rbegin()''', '''        if (exitedStates.size() > 1U)
        for (auto it = exitedStates.rbegin()'''))
m("t_enter_veto_ok", "P16", ('''            onStateChanged(*it, VariantVector_t());
        }
    }

    return res;''', '''            onStateChanged(*it, VariantVector_t());
        }
        res = HsmEventStatus::DONE_OK;
    }

    return res;'''))
m("t_exit_veto_proceeds", "P16", ('''        if (true == isExitAllowed) {
            for (const TransitionInfo& curTransition : matchingTransitions) {''', '''        if ((true == isExitAllowed) || (matchingTransitions.size() > 1U)) {
            for (const TransitionInfo& curTransition : matchingTransitions) {'''))
m("t_cancel_is_ok", "P16", ("            res = HsmEventStatus::CANCELED;\n", ""), ("HsmEventStatus res = HsmEventStatus::DONE_FAILED;\n    bool isCorrectTransition = false;", "HsmEventStatus res = HsmEventStatus::DONE_OK;\n    bool isCorrectTransition = false;"))
m("t_enter_result_ignored", "P16", ("    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {", "    (void)onStateEntering(curTransition.destinationState, event.getArgs());\n    {"), ('''    } else {
        // states were exited starting from children, so they must be restored in reverse order
        for (auto it = exitedStates.rbegin()''', '''    }
    if (res == HsmEventStatus::CANCELED) {
        for (auto it = exitedStates.rbegin()'''))
# ---- P19 active set
m("t_dup_active", "P19", ("    if (false == isStateActive(newState)) {\n        mActiveStates.emplace_back", "    {\n        mActiveStates.emplace_back"))
m("t_internal_exits", "P19", ('''            ((curTransition.fromState != curTransition.destinationState) ||
             (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) &&
            // exit''', '''            // exit'''))
m("t_internal_enters", "P19", ('''                if ((curTransition.fromState != curTransition.destinationState) ||
                    (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
                    res = process''', '''                {
                    res = process'''))
m("t_exit_any", "P19", ('''                if ((curTransition.fromState == *itActiveState) ||
                    (true == isSubstateOf(curTransition.fromState, *itActiveState))) {''', '''                if ((curTransition.fromState == *itActiveState) ||
                    (true == isSubstateOf(*itActiveState, curTransition.fromState))) {'''))
m("t_exit_entrypoint", "P19", ('''&&
            // exit active states only during regular transitions
            (TransitionBehavior::REGULAR == event.transitionType)) {''', '''&&
            (TransitionBehavior::FORCED != event.transitionType)) {'''))
m("t_exited_not_removed", "P19", ('''                for (const auto& curState : outExitedStates) {
                    mActiveStates.remove(curState);
                }
            }
            // if one''', '''                if (outExitedStates.size() < 3U) { for (const auto& curState : outExitedStates) {
                    mActiveStates.remove(curState);
                } }
            }
            // if one'''))
m("t_parent_removed", "P19", ('''    if (false == isSubstateOf(oldState, newState)) {
        mActiveStates.remove(oldState);
    }''', '''    mActiveStates.remove(oldState);'''))
m("t_parent_removed2", "P19", ("    if (false == isSubstateOf(oldState, newState)) {", "    if (false == isSubstateOf(newState, oldState)) {"))
m("t_reenter_active", "P19", ("    if (false == isStateActive(state)) {\n        auto it = mRegisteredStates", "    {\n        auto it = mRegisteredStates"))
m("t_clear_active", "P19", ('''                for (const auto& curState : outExitedStates) {
                    mActiveStates.remove(curState);
                }
            }
            // if one''', '''                mActiveStates.clear();
            }
            // if one'''))

# ---------------------------------------------------------------- refactorings
r("r_index_helper_add", ('''    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
        // NOTE''', '''    const StateID_t target = curTransition.destinationState;
    const bool entered = onStateEntering(target, event.getArgs());

    if (true == entered) {
        // NOTE'''))
r("r_while_restore", ('''        for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {
            // to prevent infinite loops we don't allow state to cancel transition
            (void)onStateEntering(*it, VariantVector_t());
            (void)addActiveState(*it);
            onStateChanged(*it, VariantVector_t());
        }''', '''        auto it = exitedStates.rbegin();
        while (it != exitedStates.rend()) {
            const StateID_t restored = *it;
            (void)onStateEntering(restored, VariantVector_t());
            (void)addActiveState(restored);
            onStateChanged(restored, VariantVector_t());
            ++it;
        }'''))
r("r_internal_flag", ('''        if ((curTransition.fromState == curTransition.destinationState) &&
            (TransitionType::INTERNAL_TRANSITION == curTransition.transitionType)) {''', '''        const bool isInternal = (curTransition.fromState == curTransition.destinationState) &&
            (TransitionType::INTERNAL_TRANSITION == curTransition.transitionType);
        if (!isInternal) { continue; }
        {'''))
r("r_exit_collect", ('''                if ((curTransition.fromState == *itActiveState) ||
                    (true == isSubstateOf(curTransition.fromState, *itActiveState))) {
                    isExitAllowed = onStateExiting(*itActiveState);

                    if (true == isExitAllowed) {
                        outExitedStates.emplace_back(*itActiveState);
                    } else {
                        break;
                    }
                }''', '''                const StateID_t active = *itActiveState;
                const bool isBelow = (active == curTransition.fromState) || isSubstateOf(curTransition.fromState, active);
                if (!isBelow) {
                    continue;
                }
                if (!onStateExiting(active)) {
                    isExitAllowed = false;
                    break;
                }
                outExitedStates.push_back(active);'''))
r("r_early_return_single", ('''    if (true == isCorrectTransition) {
        bool isExitAllowed = true;
        std::list<StateID_t> exitedStates;
''', '''    if (false == isCorrectTransition) {
        return HsmEventStatus::DONE_FAILED;
    }
    {
        bool isExitAllowed = true;
        std::list<StateID_t> exitedStates;
'''))
r("r_remove_erase", ('''                for (const auto& curState : outExitedStates) {
                    mActiveStates.remove(curState);
                }
            }
            // if one''', '''                auto cur = outExitedStates.cbegin();
                for (; cur != outExitedStates.cend(); ++cur) {
                    auto pos = std::find(mActiveStates.begin(), mActiveStates.end(), *cur);
                    if (pos != mActiveStates.end()) {
                        mActiveStates.erase(pos);
                    }
                }
            }
            // if one'''))
r("r_changed_copy_cb", ('''    if ((mRegisteredStates.end() != it) && it->second.onStateChanged) {
        it->second.onStateChanged(args);''', '''    if (mRegisteredStates.end() == it) { return; }
    const StateCallbacks& callbacks = it->second;
    if (callbacks.onStateChanged) {
        callbacks.onStateChanged(args);'''))
r("r_enter_helper", ('''        if ((mRegisteredStates.end() != it) && it->second.onEntering) {
            res = it->second.onEntering(args);''', '''        if ((mRegisteredStates.end() != it) && (nullptr != it->second.onEntering)) {
            const auto& callback = it->second.onEntering;
            res = callback(args);'''))

# ---- P17 outcome of an event
OFFER = '''        if (true == isStateActive(*it)) {
            // we don't need to process transitions for active states if their child already processed it
            bool childStateProcessed = false;

            for (const auto& state : acceptedStates) {
                if (true == isSubstateOf(*it, state)) {
                    childStateProcessed = true;
                    break;
                }
            }

            if (false == childStateProcessed) {
                const HsmEventStatus'''
m("o_no_active_check", "P17", (OFFER, OFFER.replace("true == isStateActive(*it)", "INVALID_HSM_STATE_ID != *it")))
m("o_no_break", "P17", (OFFER, OFFER.replace('''                if (true == isSubstateOf(*it, state)) {
                    childStateProcessed = true;
                    break;
                }''', '''                childStateProcessed = isSubstateOf(*it, state);''')))
m("o_swapped_args", "P17", (OFFER, OFFER.replace("isSubstateOf(*it, state)", "isSubstateOf(state, *it)")))
m("o_last_only", "P17", (OFFER, OFFER.replace('''                    break;
''', "").replace("for (const auto& state : acceptedStates) {", "if (false == acceptedStates.empty()) { const auto& state = acceptedStates.back();")))
m("o_forward", "P17", ("for (auto it = activeStatesSnapshot.rbegin(); it != activeStatesSnapshot.rend(); ++it) {", "for (auto it = activeStatesSnapshot.begin(); it != activeStatesSnapshot.end(); ++it) {"))
m("o_pending_not_accepted", "P17", ('''                        res = singleTransitionResult;
                        acceptedStates.emplace_back(*it);
                        break;
                    case HsmEventStatus::DONE_OK''', '''                        res = singleTransitionResult;
                        break;
                    case HsmEventStatus::DONE_OK'''))
m("o_ok_overrides_pending", "P17", ('''                        if (HsmEventStatus::PENDING != res) {
                            res = singleTransitionResult;
                        }''', '''                        res = singleTransitionResult;'''))
m("o_failed_resets", "P17", ('''                    default:
                        // do nothing
                        break;''', '''                    default:
                        if (HsmEventStatus::PENDING != res) { res = singleTransitionResult; }
                        break;'''))
m("o_break_on_ok", "P17", ('''        // forced transitions don't depend on active states and must be executed only once
        if (''', '''        // forced transitions don't depend on active states and must be executed only once
        if ((HsmEventStatus::PENDING == res) || '''), )
m("o_forced_many", "P17", ("if (TransitionBehavior::FORCED == event.transitionType) {\n            break;", "if (TransitionBehavior::FORCED == event.transitionType && HsmEventStatus::DONE_FAILED == res) {\n            break;"))
m("o_no_stop_on_release", "P17", ('''        if (false == isInitialized()) {
            res = HsmEventStatus::DONE_FAILED;
            break;
        }''', '''        if (false == isInitialized()) {
            res = HsmEventStatus::DONE_FAILED;
        }'''))
m("o_cb_only_failed", "P17", ("if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {",
                              "if (mFailedTransitionCallback && (HsmEventStatus::DONE_OK != res)) {"))
m("o_cb_in_loop", "P17", ('''                    case HsmEventStatus::CANCELED:
                    case HsmEventStatus::DONE_FAILED:''', '''                    case HsmEventStatus::CANCELED:
                        if (mFailedTransitionCallback) { mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs()); }
                        break;
                    case HsmEventStatus::DONE_FAILED:'''))
m("o_cb_id", "P17", ("mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());", "mFailedTransitionCallback(activeStatesSnapshot, INVALID_HSM_EVENT_ID, event.getArgs());"))
LOOP = '''            bool childStateProcessed = false;

            for (const auto& state : acceptedStates) {
                if (true == isSubstateOf(*it, state)) {
                    childStateProcessed = true;
                    break;
                }
            }
'''
r("r_o_any_of", (LOOP, '''            const StateID_t curState = *it;
            const bool childStateProcessed = std::any_of(acceptedStates.begin(), acceptedStates.end(), [&](const StateID_t st) { return isSubstateOf(curState, st); });
'''))
r("r_o_find_if", (LOOP, '''            const bool childStateProcessed = (acceptedStates.end() != std::find_if(acceptedStates.begin(), acceptedStates.end(), [&](const StateID_t& st) { return isSubstateOf(*it, st); }));
'''))
r("r_o_it_loop", (LOOP, '''            bool childStateProcessed = false;

            for (auto st = acceptedStates.cbegin(); (st != acceptedStates.cend()) && !childStateProcessed; ++st) {
                childStateProcessed = isSubstateOf(*it, *st);
            }
'''))
r("r_o_continue", ('''        if (true == isStateActive(*it)) {
            // we don't need''', '''        const StateID_t candidate = *it;
        if (true == isStateActive(candidate)) {
            // we don't need'''), ("handleSingleTransition(*it, event);", "handleSingleTransition(candidate, event);"))
r("r_o_if_chain", ('''                switch (singleTransitionResult) {
                    case HsmEventStatus::PENDING:
                        res = singleTransitionResult;
                        acceptedStates.emplace_back(*it);
                        break;
                    case HsmEventStatus::DONE_OK:
                        logHsmAction(HsmLogAction::IDLE,
                                     INVALID_HSM_STATE_ID,
                                     INVALID_HSM_STATE_ID,
                                     INVALID_HSM_EVENT_ID,
                                     false,
                                     VariantVector_t());
                        if (HsmEventStatus::PENDING != res) {
                            res = singleTransitionResult;
                        }
                        acceptedStates.emplace_back(*it);
                        break;
                    case HsmEventStatus::CANCELED:
                    case HsmEventStatus::DONE_FAILED:
                    default:
                        // do nothing
                        break;
                }''', '''                const bool isOk = (HsmEventStatus::DONE_OK == singleTransitionResult);
                if (isOk || (HsmEventStatus::PENDING == singleTransitionResult)) {
                    acceptedStates.push_front(*it);
                    if (isOk) {
                        logHsmAction(HsmLogAction::IDLE, INVALID_HSM_STATE_ID, INVALID_HSM_STATE_ID, INVALID_HSM_EVENT_ID, false, VariantVector_t());
                    }
                    if (!(isOk && (HsmEventStatus::PENDING == res))) {
                        res = singleTransitionResult;
                    }
                }'''))

# ---- P18 selection
SELC = '''            if ((nullptr == it->second.checkCondition) ||
                (it->second.expectedConditionValue == it->second.checkCondition(transitionArgs))) {'''
m("s_ignore_expected", "P18", (SELC, SELC.replace("it->second.expectedConditionValue == it->second", "true == it->second")))
m("s_inverted", "P18", (SELC, SELC.replace("expectedConditionValue ==", "expectedConditionValue !=")))
m("s_other_args", "P18", (SELC, SELC.replace("checkCondition(transitionArgs)", "checkCondition(VariantVector_t())")))
m("s_insert_before_check", "P18", ("                        outTransitions.emplace_back(it->second);\n                        wasFound = true;", "                        wasFound = true;\n                        outTransitions.emplace_back(itRange.first->second);"))
EPC = '''        if (((INVALID_HSM_EVENT_ID == it->second.onEvent) || (onEvent == it->second.onEvent)) &&
            // check transition condition if it was defined
            ((nullptr == it->second.checkCondition) ||
             (it->second.checkCondition(transitionArgs) == it->second.expectedConditionValue))) {
            outEntryPoints.emplace_back(it->second.state);
        }'''
m("s_ep_any_event", "P18", (EPC, EPC.replace("(onEvent == it->second.onEvent)", "(onEvent != INVALID_HSM_EVENT_ID)")))
m("s_ep_cond_or", "P18", (EPC, EPC.replace("it->second.onEvent)) &&\n", "it->second.onEvent)) ||\n")))
m("s_ep_cond_skip_default", "P18", (EPC, EPC.replace("((nullptr == it->second.checkCondition) ||", "((nullptr == it->second.checkCondition) || (INVALID_HSM_EVENT_ID == onEvent) ||")))
m("s_stale", "P18", ('''        nextEvent = event;
        possibleTransitions.clear();
''', '''        nextEvent = event;
'''))
m("s_climb_always", "P18", ('''    } while (true == continueSearch);''', '''        if (true == searchParents) { continueSearch = getParentState(curState, curState); }
    } while (true == continueSearch);'''))
m("s_no_leaf", "P18", ("                                HSM_TRACE_WARNING(\"no matching entrypoints found\");\n                                break;", "                                HSM_TRACE_WARNING(\"no matching entrypoints found\");\n                                outTransitions.emplace_back(it->second);\n                                break;"))
m("s_no_clear_ep", "P18", ('''    outEntryPoints.clear();

    for (auto it = itRange.first''', '''    for (auto it = itRange.first'''), ('''                PendingEventInfo entryPointTransitionEvent = event;
''', '''                PendingEventInfo entryPointTransitionEvent = event;
                (void)getEntryPoints(curTransition.destinationState, event.id, event.getArgs(), entryPoints);
'''))
m("s_wrong_key", "P18", ("const auto itRange = mTransitionsByEvent.equal_range(std::make_pair(curState, event));", "const auto itRange = mTransitionsByEvent.equal_range(std::make_pair(event, curState));"))
r("r_s_flip", (SELC, '''            const TransitionInfo& candidate = it->second;
            bool isAllowed = true;
            if (candidate.checkCondition) {
                const bool conditionValue = candidate.checkCondition(transitionArgs);
                isAllowed = (conditionValue == candidate.expectedConditionValue);
            }
            if (isAllowed) {'''))
r("r_s_ep_nested", (EPC, '''        const auto& entry = it->second;
        if ((INVALID_HSM_EVENT_ID != entry.onEvent) && (onEvent != entry.onEvent)) {
            continue;
        }
        if (entry.checkCondition && (entry.checkCondition(transitionArgs) != entry.expectedConditionValue)) {
            continue;
        }
        outEntryPoints.push_back(entry.state);'''))
r("r_s_while", ("for (auto it = itRange.first; it != itRange.second; ++it) {\n            HSM_TRACE_DEBUG", "auto it = itRange.first;\n        for (; it != itRange.second; it++) {\n            HSM_TRACE_DEBUG"))
r("r_s_find_key", ("const auto itRange = mTransitionsByEvent.equal_range(std::make_pair(curState, event));", "const std::pair<StateID_t, EventID_t> key(curState, event);\n        const auto itRange = mTransitionsByEvent.equal_range(key);"))
r("r_s_helper", ("bool HierarchicalStateMachine::Impl::findTransitionTarget(const StateID_t fromState,", '''static bool conditionAllows(const TransitionInfo& transition, const VariantVector_t& args) {
    return (nullptr == transition.checkCondition) || (transition.expectedConditionValue == transition.checkCondition(args));
}

bool HierarchicalStateMachine::Impl::findTransitionTarget(const StateID_t fromState,'''), (SELC, "            if (conditionAllows(it->second, transitionArgs)) {"))
r("r_s_local_result", ('''    auto itRange = mSubstateEntryPoints.equal_range(state);

    outEntryPoints.clear();
''', '''    auto itRange = mSubstateEntryPoints.equal_range(state);
    bool wasFound = false;

    outEntryPoints.clear();
'''), ('''            outEntryPoints.emplace_back(it->second.state);
        }
    }

    return (false == outEntryPoints.empty());''', '''            outEntryPoints.emplace_back(it->second.state);
            wasFound = true;
        }
    }

    return wasFound;'''))

# ---- P10/P12/P13/P14 event queue
POSTB = '''            HSM_SYNC_EVENTS_QUEUE();

            // NOTE: no one will process new events if HSM is being released
            if (false == mStopDispatching) {
                if (true == clearQueue) {
                    clearPendingEvents();
                }

                mPendingEvents.emplace_back(eventInfo);
                isScheduled = true;
            }
'''
assert True
m("q_gate_skipped", "P10", ("if (dispatcherPtr && (false == mIsDispatching.test_and_set())) {", "if (dispatcherPtr) {\n        (void)mIsDispatching.test_and_set();"))
m("q_gate_leak", "P10", ('''            if ((false == mStopDispatching) && (true == hasMoreEvents)) {
                dispatcherPtr->emitEvent(mEventsHandlerId);
            }''', '''            if (true == mStopDispatching) { return; }
            if (true == hasMoreEvents) {
                dispatcherPtr->emitEvent(mEventsHandlerId);
            }'''))
m("q_gate_no_notify", "P10", ('''        mIsDispatching.clear();
        mIsDispatching.notify();
    }
}

void HierarchicalStateMachine::Impl::dispatchTimerEvent''', '''        mIsDispatching.clear();
    }
}

void HierarchicalStateMachine::Impl::dispatchTimerEvent'''))
m("q_gate_early", "P10", ('''                if (true == hasPendingEvent) {
                    HsmEventStatus''', '''                if (false == hasMoreEvents) { mIsDispatching.clear(); mIsDispatching.notify(); }
                if (true == hasPendingEvent) {
                    HsmEventStatus'''))
m("q_stop_before_gate", "P10", ("if (dispatcherPtr && (false == mIsDispatching.test_and_set())) {\n        UniqueLock lk = mIsDispatching.lock();\n\n        if (false == mStopDispatching) {",
                                "if (dispatcherPtr && (false == mStopDispatching) && (false == mIsDispatching.test_and_set())) {\n        UniqueLock lk = mIsDispatching.lock();\n\n        {"))
m("q_startup_no_gate", "P10", ('''        if (false == mIsDispatching.test_and_set()) {
            UniqueLock lk = mIsDispatching.lock();
            std::list<StateID_t> entryPoints;
''', '''        {
            std::list<StateID_t> entryPoints;
'''), ('''            mIsDispatching.clear();
            mIsDispatching.notify();
        }

        bool hasPendingEvents''', '''        }

        bool hasPendingEvents'''))
m("q_status_const", "P12", ("pendingEvent.unlock(transitiontStatus);", "pendingEvent.unlock(HsmEventStatus::DONE_OK);"))
m("q_status_only_ok", "P12", ("pendingEvent.unlock(transitiontStatus);", "if (HsmEventStatus::DONE_FAILED != transitiontStatus) { pendingEvent.unlock(transitiontStatus); }"))
m("q_unlock_before", "P12", ("HsmEventStatus transitiontStatus = doTransition(pendingEvent);", "pendingEvent.unlock(HsmEventStatus::DONE_OK);\n HsmEventStatus transitiontStatus = doTransition(pendingEvent);"))
m("q_initlock_late", "P12", ('''        if (true == sync) {
            eventInfo.initLock();
        }
''', ""), ('''            HSM_TRACE_DEBUG("transitionEx: emit");''', '''            if (true == sync) { eventInfo.initLock(); }'''))
m("q_emit_after_wait", "P12", ('''            dispatcherPtr->emitEvent(mEventsHandlerId);

            if (true == sync) {
                HSM_TRACE_DEBUG("transitionEx: wait...");
                status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
            } else {''', '''            if (true == sync) {
                HSM_TRACE_DEBUG("transitionEx: wait...");
                status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
            dispatcherPtr->emitEvent(mEventsHandlerId);
            } else {
            dispatcherPtr->emitEvent(mEventsHandlerId);'''))
m("q_wait_not_failed", "P12", ("status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));", "status = (HsmEventStatus::DONE_FAILED != eventInfo.wait(timeoutMs));"))
m("q_wait_infinite", "P12", ("eventInfo.wait(timeoutMs)", "eventInfo.wait(HSM_WAIT_INDEFINITELY)"))
m("q_true_if_not_queued", "P12", ('''                isScheduled = true;
            }
''', '''                isScheduled = true;
            }
            status = (false == sync);
'''))
m("q_clear_no_complete", "P12", ("            it->releaseLock();\n            it = mPendingEvents.erase(it);", "            it = mPendingEvents.erase(it);"))
m("q_release_no_complete", "P12", ("    for (PendingEventInfo& pendingEvent : abandonedEvents) {\n        pendingEvent.releaseLock();\n    }", ""))
m("q_release_no_drain", "P12", ("        abandonedEvents.swap(mPendingEvents);\n", ""))
m("q_release_clear", "P12", ("        abandonedEvents.swap(mPendingEvents);\n", "        abandonedEvents.swap(mPendingEvents);\n        mPendingEvents.clear();\n"), ("    for (PendingEventInfo& pendingEvent : abandonedEvents) {\n        pendingEvent.releaseLock();\n    }", "    for (PendingEventInfo& pendingEvent : abandonedEvents) {\n        if (TransitionBehavior::REGULAR == pendingEvent.transitionType) { pendingEvent.releaseLock(); break; }\n    }"))
T = "src/HsmImplTypes.cpp"
m("q_cont_no_waiter", "P12", ("                    PendingEventInfo entryPointTransitionEvent = event;\n\n                    entryPoint", "                    PendingEventInfo entryPointTransitionEvent;\n entryPointTransitionEvent.id = event.id; entryPointTransitionEvent.args = event.args;\n                    entryPoint"))
m("q_hist_no_waiter", "P12", ("    PendingEventInfo defHistoryTransitionEvent = event;\n", "    PendingEventInfo defHistoryTransitionEvent;\n defHistoryTransitionEvent.id = event.id; defHistoryTransitionEvent.args = event.args;\n"))
m("q_unlock_no_store", "P12", (T, "            *transitionStatus = status;\n", "            if (status != HsmEventStatus::DONE_FAILED) { *transitionStatus = status; }\n"))
m("q_unlock_no_notify", "P12", (T, "if (status != HsmEventStatus::PENDING) {\n            syncP", "if (status == HsmEventStatus::DONE_OK) {\n            syncP"))
m("q_releaselock_ok", "P12", (T, "releaseLock\");\n        unlock(HsmEventStatus::DONE_FAILED)", "releaseLock\");\n        unlock(HsmEventStatus::DONE_OK)"))
m("q_wait_no_timeout", "P12", (T, "syncProcessed->wait_for(lck, timeoutMs,", "syncProcessed->wait_for(lck, 1000,"))
m("q_wait_const", "P12", (T, "        status = *transitionStatus;\n", "        status = (*transitionStatus == HsmEventStatus::PENDING) ? HsmEventStatus::PENDING : HsmEventStatus::DONE_OK;\n"))
m("q_back", "P13", ("pendingEvent = std::move(mPendingEvents.front());\n                        mPendingEvents.pop_front();", "pendingEvent = std::move(mPendingEvents.back());\n                        mPendingEvents.pop_back();"))
m("q_pop_later", "P13", ("                        mPendingEvents.pop_front();\n", ""), ("                    pendingEvent.unlock(transitiontStatus);", "                    pendingEvent.unlock(transitiontStatus);\n { HSM_SYNC_EVENTS_QUEUE(); mPendingEvents.pop_front(); }"))
m("q_push_front_when_sync", "P13", ("                mPendingEvents.emplace_back(eventInfo);\n                isScheduled", "                if (sync) { mPendingEvents.emplace_front(eventInfo); } else { mPendingEvents.emplace_back(eventInfo); }\n                isScheduled"))
m("q_emit_if_first", "P13", ("        if (true == isScheduled) {\n            HSM_TRACE_DEBUG(\"transitionEx: emit\");\n            dispatcherPtr->emitEvent(mEventsHandlerId);", "        if (true == isScheduled) {\n            if (mPendingEvents.size() == 1) dispatcherPtr->emitEvent(mEventsHandlerId);"))
m("q_no_more_emit", "P13", ("            if ((false == mStopDispatching) && (true == hasMoreEvents)) {", "            if ((false == mStopDispatching) && (true == hasMoreEvents) && (false == hasPendingEvent)) {"))
m("q_more_before_dispatch", "P13", ("                        hasPendingEvent = true;\n", "                        hasPendingEvent = true;\n                        hasMoreEvents = (false == mPendingEvents.empty());\n"), ('''            {
                HSM_SYNC_EVENTS_QUEUE();
                hasMoreEvents = (false == mPendingEvents.empty());
            }

            if ((false''', '''            if ((false'''))
m("q_cont_back", "P13", ("                        mPendingEvents.push_front(entryPointTransitionEvent);", "                        mPendingEvents.push_back(entryPointTransitionEvent);"))
m("q_hist_back", "P13", ("            mPendingEvents.push_front(defHistoryTransitionEvent);", "            mPendingEvents.push_back(defHistoryTransitionEvent);"))
m("q_final_back", "P13", ("                    mPendingEvents.push_front(finalStateEvent);", "                    mPendingEvents.push_back(finalStateEvent);"))
m("q_start_back", "P13", ("mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));", "mPendingEvents.emplace_back(std::move(entryPointTransitionEvent));"))
m("q_start_no_emit", "P13", ("hasPendingEvents = (false == mPendingEvents.empty());", "hasPendingEvents = (mPendingEvents.size() > 1);"))
m("q_taken_dropped", "P13", ("                if (true == hasPendingEvent) {\n                    HsmEventStatus", "                if ((true == hasPendingEvent) && (false == mActiveStates.empty())) {\n                    HsmEventStatus"))
m("q_clear_all", "P14", ('''                    clearPendingEvents();
                }''', '''                    for (auto& e : mPendingEvents) { e.releaseLock(); } mPendingEvents.clear();
                }'''))
m("q_clear_wrong_type", "P14", ("if (TransitionBehavior::REGULAR == it->transitionType) {\n            it->rel", "if (TransitionBehavior::ENTRYPOINT != it->transitionType) {\n            it->rel"))
m("q_clear_skips", "P14", ("            it = mPendingEvents.erase(it);\n        } else {\n            ++it;\n        }", "            it = mPendingEvents.erase(it);\n        if (it != mPendingEvents.end()) ++it;\n        } else {\n            ++it;\n        }"))
m("q_clear_first_only", "P14", ("            it = mPendingEvents.erase(it);\n        } else {", "            it = mPendingEvents.erase(it);\n            break;\n        } else {"))
m("q_clear_sync_only", "P14", ("                if (true == clearQueue) {", "                if ((true == clearQueue) && (false == sync)) {"))
m("q_clear_always_sync", "P14", ("                if (true == clearQueue) {", "                if ((true == clearQueue) || (true == sync)) {"))
m("q_clear_after", "P14", ('''                if (true == clearQueue) {
                    clearPendingEvents();
                }

                mPendingEvents.emplace_back(eventInfo);''', '''                mPendingEvents.emplace_back(eventInfo);
                if (true == clearQueue) {
                    clearPendingEvents();
                }'''))
m("q_clear_own_lock", "P14", ('''        {
            HSM_SYNC_EVENTS_QUEUE();

            // NOTE: no one''', '''        if (clearQueue && (false == mStopDispatching)) { HSM_SYNC_EVENTS_QUEUE(); clearPendingEvents(); }
        {
            HSM_SYNC_EVENTS_QUEUE();

            // NOTE: no one'''), ('''                if (true == clearQueue) {
                    clearPendingEvents();
                }
''', ""))
r("r_q_loop_front", ('''                        pendingEvent = std::move(mPendingEvents.front());
                        mPendingEvents.pop_front();''', '''                        auto first = mPendingEvents.begin();
                        pendingEvent = *first;
                        (void)mPendingEvents.erase(first);'''))
r("r_q_remove_if", ('''    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
        // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
        if (TransitionBehavior::REGULAR == it->transitionType) {
            it->releaseLock();
            it = mPendingEvents.erase(it);
        } else {
            ++it;
        }
    }''', '''    mPendingEvents.remove_if([](PendingEventInfo& ev) {
        const bool drop = (TransitionBehavior::REGULAR == ev.transitionType);
        if (drop) { ev.releaseLock(); }
        return drop;
    });'''))
r("r_q_remove_two", ('''    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
        // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
        if (TransitionBehavior::REGULAR == it->transitionType) {
            it->releaseLock();
            it = mPendingEvents.erase(it);
        } else {
            ++it;
        }
    }''', '''    auto it = mPendingEvents.begin();
    while (mPendingEvents.end() != it) {
        if (it->transitionType != TransitionBehavior::REGULAR) {
            ++it;
            continue;
        }
        PendingEventInfo& e = *it;
        e.releaseLock();
        mPendingEvents.erase(it++);
    }'''))
r("r_q_post_helper", (POSTB, '''            isScheduled = appendEvent(mEventsSyncX, mStopDispatching, mPendingEvents, eventInfo, [&]() { if (clearQueue) { clearPendingEvents(); } });
'''.replace("appendEvent(mEventsSyncX, mStopDispatching, mPendingEvents, eventInfo, [&]() { if (clearQueue) { clearPendingEvents(); } })", "[&]() { HSM_SYNC_EVENTS_QUEUE(); if (mStopDispatching) { return false; } if (clearQueue) { clearPendingEvents(); } mPendingEvents.push_back(eventInfo); return true; }()")))
r("r_q_early_return", ('''        if (true == isScheduled) {
            HSM_TRACE_DEBUG("transitionEx: emit");
            dispatcherPtr->emitEvent(mEventsHandlerId);

            if (true == sync) {
                HSM_TRACE_DEBUG("transitionEx: wait...");
                status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
            } else {
                // always return true for async transitions
                status = true;
            }
        }''', '''        if (false == isScheduled) {
            return false;
        }
        dispatcherPtr->emitEvent(mEventsHandlerId);
        if (!sync) { return true; }
        const HsmEventStatus res = eventInfo.wait(timeoutMs);
        status = (res == HsmEventStatus::DONE_OK);'''))
r("r_q_size", ("hasMoreEvents = (false == mPendingEvents.empty());", "hasMoreEvents = (mPendingEvents.size() > 0);"))
r("r_q_release_loop", ('''    std::list<PendingEventInfo> abandonedEvents;

    {
        HSM_SYNC_EVENTS_QUEUE();
        abandonedEvents.swap(mPendingEvents);
    }

    for (PendingEventInfo& pendingEvent : abandonedEvents) {
        pendingEvent.releaseLock();
    }''', '''    HSM_SYNC_EVENTS_QUEUE();
    for (auto it = mPendingEvents.begin(); it != mPendingEvents.end(); ++it) {
        it->releaseLock();
    }
    mPendingEvents.clear();'''))
r("r_q_release_splice", ('''        abandonedEvents.swap(mPendingEvents);
''', '''        abandonedEvents = std::move(mPendingEvents);
        mPendingEvents.clear();
'''))
r("r_q_dispatch_inverted", ('''                if (true == hasPendingEvent) {
                    HsmEventStatus transitiontStatus = doTransition(pendingEvent);

                    HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
                    pendingEvent.unlock(transitiontStatus);
                }''', '''                if (hasPendingEvent) {
                    pendingEvent.unlock(doTransition(pendingEvent));
                }'''))
r("r_q_initlock_ctor", ('''        if (true == sync) {
            eventInfo.initLock();
        }
''', '''        if (!sync) {
            HSM_TRACE_DEBUG("async");
        } else {
            eventInfo.initLock();
        }
'''))

# ---- P07/P08/P22 life cycle
H = "HierarchicalStateMachine::Impl::"
CAP = "registerEventHandler([ptrInstance]() {\n        bool handlerIsValid = false;\n        auto pThis = ptrInstance.lock();\n"
m("l_strong_capture", "P07", (CAP, "registerEventHandler([inst = 0, this]() {\n        bool handlerIsValid = false;\n        auto pThis = this; (void)inst;\n".replace("inst = 0, ", "").replace(" (void)inst;", "")))
m("l_shared_capture", "P07", (CAP, CAP.replace("[ptrInstance]", "[strongRef]")), ("    mEventsHandlerId = dispatcherPtr->registerE", "    auto strongRef = ptrInstance.lock();\n    mEventsHandlerId = dispatcherPtr->registerE"), ("        auto pThis = ptrInstance.lock();\n", "        auto pThis = strongRef;\n"))
m("l_ref_capture", "P07", ("registerTimerHandler([ptrInstance]", "registerTimerHandler([&ptrInstance]"))
m("l_no_stop_check", "P07", ("        if (pThis && (false == pThis->mStopDispatching)) {\n            pThis->transitionSimple(event);", "        if (pThis) {\n            pThis->transitionSimple(event);"))
m("l_no_alive_check", "P07", ("        if (pThis && (false == pThis->mStopDispatching)) {\n            pThis->dispatchTimerEvent", "        if (false == pThis->mStopDispatching) {\n            pThis->dispatchTimerEvent"))
m("l_always_valid", "P07", ("            pThis->dispatchEvents();\n            handlerIsValid = true;\n        }", "            pThis->dispatchEvents();\n        }\n        handlerIsValid = true;"))
m("l_wrong_event", "P07", ("            pThis->transitionSimple(event);", "            pThis->transitionSimple(INVALID_HSM_EVENT_ID);"))
m("l_timer_wrong_event", "P07", ("        transitionSimple(it->second);", "        transitionSimple(it->first);"))
m("l_timer_first", "P07", ("    auto it = mTimers.find(id);\n", "    auto it = mTimers.find(id);\n    if (mTimers.end() == it) { it = mTimers.begin(); }\n"))
m("l_stop_late", "P08", ("    mStopDispatching = true;\n    HSM_TRACE_CALL_DEBUG();\n\n    disableHsmDebugging();", "    HSM_TRACE_CALL_DEBUG();\n\n    disableHsmDebugging();"), ("        mIsDispatching.wait(true);\n    }", "        mIsDispatching.wait(true);\n    }\n    mStopDispatching = true;"))
m("l_no_unreg_timer", "P08", ("        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        // NOTE", "        // NOTE"))
m("l_unreg_wrong", "P08", ("        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);\n        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        // NOTE", "        dispatcherPtr->unregisterEnqueuedEventHandler(mEventsHandlerId);\n        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);\n        // NOTE"))
m("l_no_wait", "P08", ("        mIsDispatching.wait(true);\n", ""))
m("l_wait_false", "P08", ("        mIsDispatching.wait(true);\n", "        mIsDispatching.wait(false);\n"))
m("l_wait_after_drain", "P08", ("        mIsDispatching.wait(true);\n    }", "    }"), ("    for (PendingEventInfo& pendingEvent : abandonedEvents) {", "    if (dispatcherPtr) { mIsDispatching.wait(true); }\n    for (PendingEventInfo& pendingEvent : abandonedEvents) {"))
m("l_no_reset", "P08", ("        setDispatcher(std::weak_ptr<IHsmEventDispatcher>());\n\n        // wait", "\n        // wait"))
m("l_release_if_events", "P08", ("    if (dispatcherPtr) {\n        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);", "    if (dispatcherPtr && !mActiveStates.empty()) {\n        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);"))
m("l_dtor_no_release", "P08", ("Impl::~Impl() {\n    release();", "Impl::~Impl() {\n    if (isInitialized()) { release(); }"))
m("l_facade_no_release", "P08", ("src/hsm.cpp", "    mImpl->release();\n    mImpl->resetParent();", "    mImpl->resetParent();"))
m("l_facade_no_parent", "P08", ("src/hsm.cpp", "    mImpl->release();\n    mImpl->resetParent();", "    mImpl->release();"))
m("l_init_timer_unchecked", "P22", ("                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId) &&\n", ""))
m("l_init_or", "P22", ("if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) &&\n", "if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) ||\n"))
m("l_init_no_undo", "P22", ("                        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);\n                        disp", "                        disp"))
m("l_init_no_forget", "P22", ("                        setDispatcher(std::weak_ptr<IHsmEventDispatcher>());\n                    }", "                    }"))
m("l_init_true_always", "P22", ("                        handleStartup();\n                        result = true;\n", "                        handleStartup();\n"), ("            if (true == dispatcherPtr->start()) {", "            if (true == dispatcherPtr->start()) {\n                result = true;"))
m("l_init_start_ignored", "P22", ("            if (true == dispatcherPtr->start()) {", "            (void)dispatcherPtr->start(); {"), ("            } else {\n                HSM_TRACE_ERROR(\"failed to start dispatcher\");\n            }", "            }"))
m("l_init_twice", "P22", ("    bool result = false;\n\n    if (false == isInitialized()) {\n        auto dispatcherPtr", "    bool result = false;\n\n    if ((false == isInitialized()) || mActiveStates.empty()) {\n        auto dispatcherPtr"))
m("l_init_startup_early", "P22", ("                    createTimerHandler(dispatcherPtr, ptrInstance);\n                    createEnq", "                    handleStartup();\n                    createTimerHandler(dispatcherPtr, ptrInstance);\n                    createEnq"), ("                        handleStartup();\n                        result", "                        result"))
m("l_init_no_startup_if_released", "P22", ("                        handleStartup();\n                        result", "                        if (false == mStopDispatching) { handleStartup(); }\n                        result"))
r("r_l_handler_early", ('''        if (pThis && (false == pThis->mStopDispatching)) {
            pThis->transitionSimple(event);
            handlerIsValid = true;
        }
''', '''        if (!pThis || pThis->mStopDispatching) {
            return false;
        }
        pThis->transitionSimple(event);
        handlerIsValid = true;
'''))
r("r_l_handler_var", ("    mEventsHandlerId = dispatcherPtr->registerEventHandler([ptrInstance]() {", "    auto handler = [ptrInstance]() {"), ('''        return handlerIsValid;
    });
}

void HierarchicalStateMachine::Impl::createTimerHandler''', '''        return handlerIsValid;
    };
    mEventsHandlerId = dispatcherPtr->registerEventHandler(handler);
}

void HierarchicalStateMachine::Impl::createTimerHandler'''))
r("r_l_init_guards", ('''        if (dispatcherPtr) {
            if (true == dispatcherPtr->start()) {
                std::weak_ptr<Impl> ptrInstance;''', '''        if (nullptr == dispatcherPtr) {
            return false;
        }
        {
            const bool started = dispatcherPtr->start();
            if (started) {
                std::weak_ptr<Impl> ptrInstance;'''), ('''        } else {
            HSM_TRACE_ERROR("dispatcher is NULL");
        }
''', '''        }
'''))
r("r_l_init_flag", ('''                    if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) &&
                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId) &&
                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mEnqueuedEventsHandlerId)) {''', '''                    const bool anyFailed = (mEventsHandlerId == INVALID_HSM_DISPATCHER_HANDLER_ID) ||
                        (mTimerHandlerId == INVALID_HSM_DISPATCHER_HANDLER_ID) ||
                        (mEnqueuedEventsHandlerId == INVALID_HSM_DISPATCHER_HANDLER_ID);
                    if (!anyFailed) {'''))
r("r_l_init_reorder", ('''                    createEventHandler(dispatcherPtr, ptrInstance);
                    createTimerHandler(dispatcherPtr, ptrInstance);
                    createEnqueuedEventHandler(dispatcherPtr, ptrInstance);''', '''                    createEnqueuedEventHandler(dispatcherPtr, ptrInstance);
                    createTimerHandler(dispatcherPtr, ptrInstance);
                    createEventHandler(dispatcherPtr, ptrInstance);'''))
r("r_l_release_reorder", ('''        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
        // NOTE: handler IDs must not be changed here because they could be still used by other threads
        setDispatcher(std::weak_ptr<IHsmEventDispatcher>());''', '''        setDispatcher(std::weak_ptr<IHsmEventDispatcher>());
        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
        const HandlerID_t evId = mEventsHandlerId;
        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
        dispatcherPtr->unregisterEventHandler(evId);'''))
r("r_l_release_helper", ('''        dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
        dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
        dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
        // NOTE''', '''        removeHandlers(*dispatcherPtr, mEventsHandlerId, mEnqueuedEventsHandlerId, mTimerHandlerId);
        // NOTE'''), ('''void HierarchicalStateMachine::Impl::release() {''', '''static void removeHandlers(IHsmEventDispatcher& d, const HandlerID_t a, const HandlerID_t b, const HandlerID_t c) {
    d.unregisterEventHandler(a);
    d.unregisterEnqueuedEventHandler(b);
    d.unregisterTimerHandler(c);
}

void HierarchicalStateMachine::Impl::release() {'''))

# ---------------------------------------------------------------- P24
B = "src/HsmEventDispatcherBase.cpp"
SD = "src/HsmEventDispatcherSTD.cpp"
GL = "src/HsmEventDispatcherGLib.cpp"
GM = "src/HsmEventDispatcherGLibmm.cpp"
QT = "src/HsmEventDispatcherQt.cpp"
m("t24_zero", "P24", (B, "if (intervalMs > 0u) {", "if (true) {"))
m("t24_nohandlercheck", "P24", (B, "if (mTimerHandlers.find(handlerID) != mTimerHandlers.end()) {\n            auto it", "{\n            auto it"))
m("t24_existing_interval", "P24", (B, "                it->second.intervalMs = intervalMs;\n", ""))
m("t24_existing_handler", "P24", (B, "                it->second.handlerID = handlerID;\n", ""))
m("t24_existing_mode", "P24", (B, "                it->second.isSingleShot = isSingleShot;\n", ""))
m("t24_no_stop_before_restart", "P24", (B, "                // restart timer\n                stopTimerImpl(timerID);\n", ""))
m("t24_new_mode", "P24", (B, "                newTimer.isSingleShot = isSingleShot;\n", ""))
m("t24_new_handler", "P24", (B, "                newTimer.handlerID = handlerID;\n", ""))
m("t24_new_notstored", "P24", (B, "                mActiveTimers[timerID] = newTimer;\n", ""))
m("t24_insert_keeps_old", "P24", (B, '''                it->second.handlerID = handlerID;
                it->second.intervalMs = intervalMs;
                it->second.isSingleShot = isSingleShot;

                // restart timer
                stopTimerImpl(timerID);
                startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);''', '''                TimerInfo upd;
                upd.handlerID = handlerID;
                upd.intervalMs = intervalMs;
                upd.isSingleShot = isSingleShot;
                mActiveTimers.insert(std::make_pair(timerID, upd));

                // restart timer
                stopTimerImpl(timerID);
                startTimerImpl(timerID, intervalMs, isSingleShot);'''))
m("t24_restart_swapped", "P24", (B, '''    if (mActiveTimers.end() != it) {
        stopTimerImpl(timerID);
        startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);''', '''    if (mActiveTimers.end() != it) {
        startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
        stopTimerImpl(timerID);'''))
m("t24_restart_periodic", "P24", (B, '''        startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
    }
}

void HsmEventDispatcherBase::stopTimer''', '''        startTimerImpl(timerID, it->second.intervalMs, false);
    }
}

void HsmEventDispatcherBase::stopTimer'''))
m("t24_stop_noerase", "P24", (B, "        mActiveTimers.erase(it);\n    }\n}\n\nbool", "    }\n}\n\nbool"))
m("t24_stop_nonative", "P24", (B, "        stopTimerImpl(timerID);\n        mActiveTimers.erase(it);", "        mActiveTimers.erase(it);"))
m("t24_running_inverted", "P24", (B, "return (mActiveTimers.find(timerID) != mActiveTimers.end());", "return (mActiveTimers.find(timerID) == mActiveTimers.end());"))
m("t24_running_any", "P24", (B, "return (mActiveTimers.find(timerID) != mActiveTimers.end());", "return !mActiveTimers.empty();"))
m("t24_unreg_break", "P24", (B, "                itTimer = mActiveTimers.erase(itTimer);\n", "                itTimer = mActiveTimers.erase(itTimer);\n                break;\n"))
m("t24_unreg_all", "P24", (B, "            if (handlerID == itTimer->second.handlerID) {", "            if (handlerID >= itTimer->second.handlerID) {"))
m("t24_unreg_keeps_timers", "P24", (B, "                stopTimerImpl(itTimer->first);\n                itTimer = mActiveTimers.erase(itTimer);", "                stopTimerImpl(itTimer->first);\n                ++itTimer;"))
m("t24_unreg_native_runs", "P24", (B, "                stopTimerImpl(itTimer->first);\n", ""))
m("t24_unreg_keeps_handler", "P24", (B, "        mTimerHandlers.erase(itHandler);\n", ""))
m("t24_unreg_skip_next", "P24", (B, "                itTimer = mActiveTimers.erase(itTimer);\n            } else {\n                ++itTimer;\n            }", "                itTimer = mActiveTimers.erase(itTimer);\n            }\n            if (itTimer != mActiveTimers.end()) {\n                ++itTimer;\n            }"))
m("t24_expire_erase_after", "P24", (B, '''                // Remove singleshot timer from active list
                if (0u == nextIntervalMs) {
                    mActiveTimers.erase(itTimer);
                }

                timerHandler(timerID);''', '''                timerHandler(timerID);

                // Remove singleshot timer from active list
                if (0u == nextIntervalMs) {
                    mActiveTimers.erase(timerID);
                }'''))
m("t24_expire_never_erased", "P24", (B, "                    mActiveTimers.erase(itTimer);\n                }\n\n                timerHandler", "                }\n\n                timerHandler"))
m("t24_expire_mode_inverted", "P24", (B, "((true == itTimer->second.isSingleShot) ? 0", "((false == itTimer->second.isSingleShot) ? 0"))
m("t24_expire_use_after", "P24", (B, "                timerHandler(timerID);\n", "                timerHandler(timerID);\n                if (nextIntervalMs > 0u) {\n                    nextIntervalMs = itTimer->second.intervalMs;\n                }\n"))
m("t24_expire_result_overrides", "P24", (B, "                timerHandler(timerID);\n", "                if (timerHandler(timerID) == false) {\n                    nextIntervalMs = 0;\n                }\n"))
m("t24_expire_interval_cached", "P24", (B, "? 0 : itTimer->second.intervalMs);", "? 0 : 1u);"))
m("t24_expire_unlock", "P24", (B, '''        LockGuard lck(mHandlersSync);

        auto itTimer = mActiveTimers.find(timerID);
''', '''        { LockGuard lck(mHandlersSync); }

        auto itTimer = mActiveTimers.find(timerID);
'''))
m("t24_std_nointerval", "P24", (SD, "it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(intervalMs);", "it->second.elapseAfter = it->second.startedAt;"))
m("t24_std_stop_noop", "P24", (SD, "        mRunningTimers.erase(timerID);\n", ""))
m("t24_std_new_notstored", "P24", (SD, "            mRunningTimers[timerID] = newTimer;\n", "            (void)newTimer;\n"))
m("t24_std_latest", "P24", (SD, "if (it->second.elapseAfter < itTimeout->second.elapseAfter) {", "if (it->second.elapseAfter > itTimeout->second.elapseAfter) {"))
m("t24_std_early", "P24", (SD, "if (waitDurationMs > 0) {", "if (waitDurationMs > 10) {"))
m("t24_std_woken", "P24", (SD, "if (false == waitResult) {", "if (true) {"))
m("t24_std_norecheck", "P24", (SD, "if ((itTimeout != mRunningTimers.end()) && (itTimeout->second.startedAt == startedAt)) {\n                    // NOTE", "if (itTimeout != mRunningTimers.end()) {\n                    // NOTE"))
m("t24_std_norecheck_after", "P24", (SD, "if ((itTimeout != mRunningTimers.end()) && (itTimeout->second.startedAt == startedAt)) {\n                        if", "if (itTimeout != mRunningTimers.end()) {\n                        if"))
m("t24_std_periodic_removed", "P24", (SD, "if (nextIntervalMs > 0u) {", "if (nextIntervalMs > 1u) {"))
m("t24_std_single_forever", "P24", (SD, '''                        } else {
                            // single shot timer. remove from queue
                            mRunningTimers.erase(itTimeout);
                        }''', "                        }"))
m("t24_glib_continue_inverted", "P24", (GL, "handleTimerEvent(timerData->second) > 0);", "handleTimerEvent(timerData->second) == 0);"))
m("t24_glib_forget", "P24", (GL, "                timerData->first->mNativeTimerHandlers.erase(itTimer);\n", ""))
m("t24_glib_nostore", "P24", (GL, "        mNativeTimerHandlers[timerID] = timeoutSource;\n", ""))
m("t24_glib_nodestroy", "P24", (GL, "        g_source_destroy(it->second);\n        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);", "        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);"))
m("t24_glib_nostopall", "P24", (GL, "    unregisterAllTimerHandlers();\n    unregisterAllEventHandlers();", "    unregisterAllEventHandlers();"))
m("t24_glibmm_nodisconnect", "P24", (GM, "        it->second.disconnect();\n        mNativeTimerHandlers.erase(it);", "        mNativeTimerHandlers.erase(it);"))
m("t24_glibmm_erase_always", "P24", (GM, "    if (false == restartTimer) {\n        CriticalSection", "    {\n        CriticalSection"))
m("t24_glibmm_return_false", "P24", (GM, "    return restartTimer;", "    return false;"))
m("t24_qt_interval", "P24", (QT, "newTimer->start(intervalMs);", "newTimer->start(0);"))
m("t24_qt_keep", "P24", (QT, "if (0 == handleTimerEvent(timerID)) {", "if (0 != handleTimerEvent(timerID)) {"))
m("t24_qt_noid", "P24", (QT, 'newTimer->setProperty("hsmid", QVariant(timerID));', 'newTimer->setProperty("hsmid", QVariant(1));'))
m("t24_qt_onceper", "P24", (QT, "newTimer->setSingleShot(isSingleShot);", "newTimer->setSingleShot(true);"))

r("r_t_start_stopfirst", (B, '''            auto it = mActiveTimers.find(timerID);

            if (mActiveTimers.end() != it) {
                it->second.handlerID = handlerID;
                it->second.intervalMs = intervalMs;
                it->second.isSingleShot = isSingleShot;

                // restart timer
                stopTimerImpl(timerID);
                startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);
            } else {
                TimerInfo newTimer;

                newTimer.handlerID = handlerID;
                newTimer.intervalMs = intervalMs;
                newTimer.isSingleShot = isSingleShot;

                mActiveTimers[timerID] = newTimer;

                // expired singleshot timer is not active anymore, but its native timer exists until the handler returns
                stopTimerImpl(timerID);
                startTimerImpl(timerID, intervalMs, isSingleShot);
            }''', '''            stopTimerImpl(timerID);
            TimerInfo& info = mActiveTimers[timerID];
            info.isSingleShot = isSingleShot;
            info.intervalMs = intervalMs;
            info.handlerID = handlerID;
            startTimerImpl(timerID, info.intervalMs, info.isSingleShot);'''))
r("r_t_start_guard", (B, '''    if (intervalMs > 0u) {
        LockGuard lck(mHandlersSync);

        if (mTimerHandlers.find(handlerID) != mTimerHandlers.end()) {''', '''    if (intervalMs != 0u) {
        LockGuard lck(mHandlersSync);
        const bool known = (0u != mTimerHandlers.count(handlerID));

        if (known) {'''))
r("r_t_restart_helper", (B, '''    if (mActiveTimers.end() != it) {
        stopTimerImpl(timerID);
        startTimerImpl(timerID, it->second.intervalMs, it->second.isSingleShot);''', '''    if (it == mActiveTimers.end()) {
        return;
    }
    {
        const TimerInfo info = it->second;
        stopTimerImpl(timerID);
        startTimerImpl(timerID, info.intervalMs, info.isSingleShot);'''))
r("r_t_stop_bykey", (B, "        stopTimerImpl(timerID);\n        mActiveTimers.erase(it);", "        mActiveTimers.erase(timerID);\n        stopTimerImpl(timerID);"))
r("r_t_unreg_while", (B, '''        for (auto itTimer = mActiveTimers.begin(); itTimer != mActiveTimers.end();) {
            if (handlerID == itTimer->second.handlerID) {
                stopTimerImpl(itTimer->first);
                itTimer = mActiveTimers.erase(itTimer);
            } else {
                ++itTimer;
            }
        }
''', '''        auto itTimer = mActiveTimers.begin();
        while (mActiveTimers.end() != itTimer) {
            if (itTimer->second.handlerID != handlerID) {
                ++itTimer;
                continue;
            }
            const TimerID_t id = itTimer->first;
            stopTimerImpl(id);
            mActiveTimers.erase(itTimer++);
        }
'''))
r("r_t_expire_early", (B, '''            if (INVALID_HSM_DISPATCHER_HANDLER_ID != itTimer->second.handlerID) {
                TimerHandlerFunc_t timerHandler = getTimerHandlerFunc(itTimer->second.handlerID);

                nextIntervalMs = ((true == itTimer->second.isSingleShot) ? 0 : itTimer->second.intervalMs);

                // Remove singleshot timer from active list
                if (0u == nextIntervalMs) {
                    mActiveTimers.erase(itTimer);
                }
''', '''            const TimerInfo info = itTimer->second;
            if (INVALID_HSM_DISPATCHER_HANDLER_ID != info.handlerID) {
                if (info.isSingleShot) {
                    mActiveTimers.erase(timerID);
                } else {
                    nextIntervalMs = info.intervalMs;
                }
                TimerHandlerFunc_t timerHandler = getTimerHandlerFunc(info.handlerID);
'''))
r("r_t_std_put", (SD, '''        it = mRunningTimers.find(timerID);

        // new timer
        if (mRunningTimers.end() == it) {
            RunningTimerInfo newTimer;

            newTimer.startedAt = std::chrono::steady_clock::now();
            newTimer.elapseAfter = newTimer.startedAt + std::chrono::milliseconds(intervalMs);

            mRunningTimers[timerID] = newTimer;
        } else {
            // restart timer
            it->second.startedAt = std::chrono::steady_clock::now();
            it->second.elapseAfter = it->second.startedAt + std::chrono::milliseconds(intervalMs);
        }''', '''        RunningTimerInfo& t = mRunningTimers[timerID];

        (void)it;
        t.startedAt = std::chrono::steady_clock::now();
        t.elapseAfter = t.startedAt + std::chrono::milliseconds(intervalMs);'''))
r("r_t_std_loop_split", (SD, '''                if ((itTimeout != mRunningTimers.end()) && (itTimeout->second.startedAt == startedAt)) {
                    // NOTE''', '''                const bool stillRunning = (itTimeout != mRunningTimers.end()) && (itTimeout->second.startedAt == startedAt);
                if (stillRunning) {
                    // NOTE'''))
r("r_t_std_wait_inv", (SD, "            if (false == waitResult) {", "            const bool expired = !waitResult;\n            if (expired) {"))
r("r_t_std_due", (SD, "if (waitDurationMs > 0) {", "if (waitDurationMs >= 1) {"))
r("r_t_glib_cont", (GL, "restartTimer = (timerData->first->handleTimerEvent(timerData->second) > 0);", "const unsigned int next = timerData->first->handleTimerEvent(timerData->second);\n        restartTimer = (0u != next);"))
r("r_t_glib_stop_ref", (GL, "        g_source_destroy(it->second);\n        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);", "        GSource* src = it->second;\n        mNativeTimerHandlers.erase(it);\n        g_source_destroy(src);\n        g_source_unref(src);"))
r("r_t_glibmm_early", (GM, '''    if (mNativeTimerHandlers.end() != it) {
        it->second.disconnect();
        mNativeTimerHandlers.erase(it);
    }''', '''    if (mNativeTimerHandlers.end() == it) {
        return;
    }
    it->second.disconnect();
    mNativeTimerHandlers.erase(timerID);'''))
r("r_t_qt_local", (QT, "if (0 == handleTimerEvent(timerID)) {", "const unsigned int nextMs = handleTimerEvent(timerID);\n        if (nextMs < 1u) {"))
r("r_t_stopall_range", (QT, '''    for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {
        it->second->deleteLater();
    }
''', '''    for (auto& entry : mNativeTimerHandlers) {
        entry.second->deleteLater();
    }
'''))

m("t24_new_nostop", "P24", (B, "                stopTimerImpl(timerID);\n                startTimerImpl(timerID, intervalMs, isSingleShot);", "                startTimerImpl(timerID, intervalMs, isSingleShot);"))
m("t24_glib_anysource", "P24", (GL, " && (g_main_current_source() == itTimer->second)", ""))
m("t24_glib_othersource", "P24", (GL, "(g_main_current_source() == itTimer->second)", "(g_main_current_source() != itTimer->second)"))
m("t24_qt_anytimer", "P24", (QT, " && (ptrTimer == itTimer->second)", ""))
m("t24_glibmm_noconn", "P24", (GM, "if (true == expiredTimer.connected())", "if (mNativeTimerHandlers.end() != mNativeTimerHandlers.find(timerID))"))
m("t24_glibmm_conn_unlocked", "P24", (GM, "    if (false == restartTimer) {\n        CriticalSection cs(mRunningTimersSync);\n", "    if ((false == restartTimer) && expiredTimer.connected()) {\n        CriticalSection cs(mRunningTimersSync);\n"),(GM, "if (true == expiredTimer.connected())", "if (true)"))
m("t24_glibmm_conn_after", "P24", (GM, "    const bool restartTimer = (handleTimerEvent(timerID) > 0);\n\n", ""), (GM, "    sigc::connection expiredTimer;\n", "    const bool restartTimer = (handleTimerEvent(timerID) > 0);\n    sigc::connection expiredTimer;\n"))
r("r_t_glib_src", (GL, " && (g_main_current_source() == itTimer->second)", " && (src == itTimer->second)"), (GL, "        restartTimer = (timerData->first->handleTimerEvent", "        GSource* const src = g_main_current_source();\n        restartTimer = (timerData->first->handleTimerEvent"))
r("r_t_glib_nested", (GL, "            if ((timerData->first->mNativeTimerHandlers.end() != itTimer) && (g_main_current_source() == itTimer->second)) {", "            const bool found = (timerData->first->mNativeTimerHandlers.end() != itTimer);\n            const bool same = found && (g_main_current_source() == itTimer->second);\n            if (same) {"))
r("r_t_new_stopfirst", (B, "                mActiveTimers[timerID] = newTimer;\n\n                // expired singleshot timer is not active anymore, but its native timer exists until the handler returns\n                stopTimerImpl(timerID);", "                stopTimerImpl(timerID);\n                mActiveTimers[timerID] = newTimer;"))

# ---- P26 delivery
m("t26_events_dropped", "P26", (B, "        events.swap(mPendingEvents);\n    }\n\n    dispatchPendingEventsImpl", "        events.swap(mPendingEvents);\n        mPendingEvents.clear();\n        events.clear();\n    }\n\n    dispatchPendingEventsImpl"))
m("t26_copy_noclear", "P26", (B, "        events.swap(mPendingEvents);", "        events = mPendingEvents;"))
m("t26_copy_clear_gap", "P26", (B, "        events.swap(mPendingEvents);\n    }\n\n    dispatchPendingEventsImpl", "        events = mPendingEvents;\n    }\n    {\n        LockGuard lck(mEmitSync);\n        mPendingEvents.clear();\n    }\n\n    dispatchPendingEventsImpl"))
m("t26_break_on_refuse", "P26", (B, "                    eventHandlersCopy.erase(itHandler);\n", "                    break;\n"))
m("t26_noerase_refuse", "P26", (B, "                    eventHandlersCopy.erase(itHandler);\n", ""))
m("t26_erase_accept", "P26", (B, "if (false == itHandler->second()) {", "if (true == itHandler->second()) {"))
m("t26_erase_registry", "P26", (B, "eventHandlersCopy.erase(itHandler);", "mEventHandlers.erase(*it);"))
m("t26_stop_unchecked", "P26", (B, "for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it)", "for (auto it = events.begin(); (it != events.end()); ++it)"))
m("t26_stop_unchecked_enq", "P26", (B, "(it != currentEvents.rend()) && (false == mStopDispatcher)", "(it != currentEvents.rend())"))
m("t26_events_reverse", "P26", (B, "for (auto it = events.begin(); (it != events.end()) &&", "for (auto it = events.rbegin(); (it != events.rend()) &&"))
m("t26_twice", "P26", (B, "                if (false == itHandler->second()) {", "                itHandler->second();\n                if (false == itHandler->second()) {"))
m("t26_first_handler", "P26", (B, "auto itHandler = eventHandlersCopy.find(*it);", "auto itHandler = eventHandlersCopy.find(events.front());"))
m("t26_enq_prev_always", "P26", (B, "if (prevHandlerID != it->handlerID) {", "if (INVALID_HSM_DISPATCHER_HANDLER_ID == prevHandlerID) {"))
m("t26_enq_wrong_arg", "P26", (B, "callback(it->eventID);", "callback(it->handlerID);"))
m("t26_enq_front_arg", "P26", (B, "callback(it->eventID);", "callback(currentEvents.front().eventID);"))
m("t26_enq_once_per_handler", "P26", (B, "                callback(it->eventID);\n", "                callback(it->eventID);\n                callback = nullptr;\n"))
m("t26_enq_nullcheck", "P26", (B, "            if (callback) {\n                callback(it->eventID);\n            }", "            callback(it->eventID);"))
m("t26_enq_move", "P26", (B, "currentEvents = mEnqueuedEvents;\n            mEnqueuedEvents.clear();", "currentEvents = std::move(mEnqueuedEvents);\n            mEnqueuedEvents.clear();"))
m("t26_enq_swap", "P26", (B, "currentEvents = mEnqueuedEvents;\n            mEnqueuedEvents.clear();", "currentEvents.swap(mEnqueuedEvents);"))
m("t26_enq_noclear", "P26", (B, "            mEnqueuedEvents.clear();\n", ""))
m("t26_enq_clear_before", "P26", (B, "currentEvents = mEnqueuedEvents;\n            mEnqueuedEvents.clear();", "mEnqueuedEvents.clear();\n            currentEvents = mEnqueuedEvents;"))
m("t26_enq_le", "P26", (B, "if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {", "if (mEnqueuedEvents.size() <= mEnqueuedEvents.capacity()) {"))
m("t26_enq_true", "P26", (B, "    bool wasAdded = false;", "    bool wasAdded = true;"))
m("t26_enq_false", "P26", (B, "            wasAdded = true;\n        }\n    }\n\n    if (true == wasAdded) {\n        notifyDispatcherAboutEvent();\n    }\n\n    return wasAdded;", "            wasAdded = true;\n        }\n    }\n\n    if (true == wasAdded) {\n        notifyDispatcherAboutEvent();\n    }\n\n    return true;"))
m("t26_enq_dup", "P26", (B, "if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {", "if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity() && (mEnqueuedEvents.empty() || mEnqueuedEvents.back().eventID != event)) {"))
m("t26_enq_swapargs", "P26", (B, "mEnqueuedEvents.emplace_back(handlerID, event);", "mEnqueuedEvents.emplace_back(event, handlerID);"))
m("t26_emit_front", "P26", (B, "mPendingEvents.emplace_back(handlerID);", "mPendingEvents.emplace_front(handlerID);"))
m("t26_emit_coalesce", "P26", (B, "        mPendingEvents.emplace_back(handlerID);", "        if (mPendingEvents.empty() || mPendingEvents.back() != handlerID) {\n            mPendingEvents.emplace_back(handlerID);\n        }"))
m("t26_action_front", "P26", (B, "mPendingActions.emplace_back(std::move(actionCallback));", "mPendingActions.emplace_front(std::move(actionCallback));"))
m("t26_action_ifempty", "P26", (B, "        mPendingActions.emplace_back(std::move(actionCallback));", "        if (mPendingActions.empty()) mPendingActions.emplace_back(std::move(actionCallback));"))
m("t26_actions_clear", "P26", (B, "        actionsSnapshot.swap(mPendingActions);\n    }", "        actionsSnapshot.swap(mPendingActions);\n    }\n    if (actionsSnapshot.size() > 100) {\n        actionsSnapshot.clear();\n    }"))
m("t26_actions_first", "P26", (B, "        actionCallback();\n    }", "        actionCallback();\n        break;\n    }"))
m("t26_id_reuse", "P26", (B, "return mNextHandlerId++;", "return static_cast<int>(mEventHandlers.size() + mTimerHandlers.size()) + 1;"))
m("t26_id_noinc", "P26", (B, "return mNextHandlerId++;", "return mNextHandlerId;"))
m("t26_reg_otherid", "P26", (B, "    mEventHandlers[id] = handler;\n\n    return id;", "    mEventHandlers[id] = handler;\n\n    return getNextHandlerID();"))
m("t26_unreg_keeps", "P26", (B, "        mEventHandlers.erase(handlerID);", "        (void)mEventHandlers.count(handlerID);"))
m("t26_unreg_clears", "P26", (B, "        mPendingEvents.remove(handlerID);", "        mPendingEvents.clear();"))
m("t26_unreg_enq_wrong", "P26", (B, "    mEnqueuedEventHandlers.erase(handlerID);", "    mEventHandlers.erase(handlerID);"))
m("t26_skip_events_if_enq", "P26", (B, "    dispatchEnqueuedEvents();\n\n    if ((false", "    if (events.size() < 2) {\n        dispatchEnqueuedEvents();\n    }\n\n    if ((false"))
m("t26_one_event", "P26", (B, "    if ((false == mStopDispatcher) && (false == events.empty())) {", "    if ((false == mStopDispatcher) && (events.size() > 1)) {"))
m("t26_no_enqueued", "P26", (B, "    dispatchEnqueuedEvents();\n\n    if ((false", "    if ((false"))
m("t26_find_inverted_live", "P26", (B, "            if (itHandler != eventHandlersCopy.end()) {", "            if (itHandler != eventHandlersCopy.begin()) {"))

r("r_d_moveevents", (B, "        events.swap(mPendingEvents);", "        events = std::move(mPendingEvents);\n        mPendingEvents.clear();"))
r("r_d_splice", (B, "        events.swap(mPendingEvents);", "        events.splice(events.end(), mPendingEvents);"))
r("r_d_stdswap", (B, "        events.swap(mPendingEvents);", "        std::swap(events, mPendingEvents);"))
r("r_d_rangefor", (B, "        for (auto it = events.begin(); (it != events.end()) && (false == mStopDispatcher); ++it) {\n            auto itHandler = eventHandlersCopy.find(*it);", "        for (const HandlerID_t handlerID : events) {\n            if (true == mStopDispatcher) {\n                break;\n            }\n            auto itHandler = eventHandlersCopy.find(handlerID);"))
r("r_d_boolresult", (B, "                if (false == itHandler->second()) {", "                const bool goOn = itHandler->second();\n                if (!goOn) {"))
r("r_d_drain", (B, "    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {\n        actionCallback();\n    }", "    while (!actionsSnapshot.empty()) {\n        actionsSnapshot.front()();\n        actionsSnapshot.pop_front();\n    }"))
r("r_d_mapctor", (B, "        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy;\n\n        {\n            // TODO: workaround to prevent recursive lock if registerEventHandler/unregisterEventHandler is called from handler\n            // callback\n            LockGuard lck(mHandlersSync);\n            eventHandlersCopy = mEventHandlers;\n        }", "        mHandlersSync.lock();\n        std::map<HandlerID_t, EventHandlerFunc_t> eventHandlersCopy(mEventHandlers);\n        mHandlersSync.unlock();"))
r("r_d_noprev", (B, "            if (prevHandlerID != it->handlerID) {\n                LockGuard lck(mHandlersSync);\n\n                callback = getEnqueuedEventHandlerFunc(it->handlerID);\n                prevHandlerID = it->handlerID;\n            }", "            {\n                LockGuard lck(mHandlersSync);\n                callback = getEnqueuedEventHandlerFunc(it->handlerID);\n            }"))
r("r_d_enq_assign", (B, "currentEvents = mEnqueuedEvents;\n            mEnqueuedEvents.clear();", "currentEvents.assign(mEnqueuedEvents.begin(), mEnqueuedEvents.end());\n            mEnqueuedEvents.clear();"))
r("r_d_enq_early", (B, "    bool wasAdded = false;\n\n    {\n        CriticalSection cs(mEnqueuedEventsSync);\n\n        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {\n            mEnqueuedEvents.emplace_back(handlerID, event);\n            wasAdded = true;\n        }\n    }\n\n    if (true == wasAdded) {\n        notifyDispatcherAboutEvent();\n    }\n\n    return wasAdded;", "    {\n        CriticalSection cs(mEnqueuedEventsSync);\n        const size_t used = mEnqueuedEvents.size();\n\n        if (used >= mEnqueuedEvents.capacity()) {\n            return false;\n        }\n        mEnqueuedEvents.push_back(EnqueuedEventInfo(handlerID, event));\n    }\n\n    notifyDispatcherAboutEvent();\n    return true;"))
r("r_d_enq_flag", (B, "        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {\n            mEnqueuedEvents.emplace_back(handlerID, event);\n            wasAdded = true;\n        }", "        wasAdded = (mEnqueuedEvents.size() != mEnqueuedEvents.capacity());\n        if (wasAdded) {\n            mEnqueuedEvents.emplace_back(handlerID, event);\n        }"))
r("r_d_id", (B, "return mNextHandlerId++;", "const int id = mNextHandlerId;\n    mNextHandlerId += 1;\n    return id;"))
r("r_d_reg_emplace", (B, "    mEventHandlers[id] = handler;", "    mEventHandlers.emplace(id, handler);"))
r("r_d_emit_push", (B, "mPendingEvents.emplace_back(handlerID);", "mPendingEvents.push_back(handlerID);"))
r("r_d_impl_inline", (B, "    if ((false == mStopDispatcher) && (false == events.empty())) {\n        std::map", "    if (mStopDispatcher || events.empty()) {\n        return;\n    }\n    {\n        std::map"))
r("r_d_unreg_erase", (B, "        mPendingEvents.remove(handlerID);", "        for (auto it = mPendingEvents.begin(); it != mPendingEvents.end();) {\n            it = (*it == handlerID) ? mPendingEvents.erase(it) : std::next(it);\n        }"))
r("r_d_enq_helper", (B, "bool HsmEventDispatcherBase::enqueueEvent(", "namespace {\ntemplate <class T>\nbool hasFreeSpace(const T& queue) {\n    return (queue.capacity() > queue.size());\n}\n}\n\nbool HsmEventDispatcherBase::enqueueEvent("),
  (B, "if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {", "if (hasFreeSpace(mEnqueuedEvents)) {"))
m("t26_enq_room_before_lock", "P26", (B, "        CriticalSection cs(mEnqueuedEventsSync);\n\n        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {", "        const bool room = hasRoom;\n        CriticalSection cs(mEnqueuedEventsSync);\n\n        if (room) {"),
  (B, "    bool wasAdded = false;\n\n    {\n        const", "    bool wasAdded = false;\n    const bool hasRoom = (mEnqueuedEvents.size() < mEnqueuedEvents.capacity());\n\n    {\n        const"))
CSF = "src/os/common/CriticalSection.cpp"
CSH = "include/hsmcpp/os/common/CriticalSection.hpp"
IFF = "src/os/posix/InterruptsFreeSection.cpp"
IM = "src/HsmImpl.cpp"
m("t06_enq_lockguard", "P06", (B, "        CriticalSection cs(mEnqueuedEventsSync);\n\n        if (mEnqueuedEvents.size()", "        LockGuard cs(mEnqueuedEventsSync);\n\n        if (mEnqueuedEvents.size()"))
m("t06_std_notify_out", "P06", (SD, "    CriticalSection cs(mWakeupSync);\n\n    mWakeupRequested = true;\n    mEmitEvent.notify();", "    {\n        CriticalSection cs(mWakeupSync);\n        mWakeupRequested = true;\n    }\n    mEmitEvent.notify();"))
m("t06_std_wait_unmasked", "P06", (SD, "            InterruptsFreeSection interruptsBlock;\n", ""))
m("t06_std_lockguard", "P06", (SD, "    CriticalSection cs(mWakeupSync);\n\n    mWakeupRequested", "    LockGuard cs(mWakeupSync);\n\n    mWakeupRequested"), (SD, "#include \"hsmcpp/os/", "#include \"hsmcpp/os/LockGuard.hpp\"\n#include \"hsmcpp/os/"))
m("t06_glib_lockguard", "P06", (GL, "    CriticalSection lck(mPipeSync);", "    LockGuard lck(mPipeSync);"), (GL, "#include \"hsmcpp/os/", "#include \"hsmcpp/os/LockGuard.hpp\"\n#include \"hsmcpp/os/"))
m("t06_disp_unique", "P06", (IM, "    CriticalSection cs(mDispatcherSync);\n\n    return", "    UniqueLock cs(mDispatcherSync);\n\n    return"))
m("t06_enq_always", "P06", (B, "if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {", "if (mEnqueuedEvents.size() <= mEnqueuedEvents.capacity()) {"))
m("t06_uses_emit", "P06", (IM, "res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);", "dispatcherPtr->emitEvent(mEventsHandlerId);\n        res = true;"))
m("t06_wrong_id", "P06", (IM, "res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);", "res = dispatcherPtr->enqueueEvent(mEventsHandlerId, event);"))
m("t06_ignores_answer", "P06", (IM, "res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);", "(void)dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);\n        res = true;"))
m("t06_transition_fallback", "P06", (IM, "        res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);", "        res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);\n        if (false == res) {\n            transitionWithArgsArray(event, VariantVector_t());\n        }"))
m("t06_glib_gsource", "P06", (GL, "    write(mPipeFD[1], &dummy, sizeof(dummy));", "    write(mPipeFD[1], &dummy, sizeof(dummy));\n    g_main_context_wakeup(mContext);"))
m("t06_mask_empty", "P06", (IFF, "    sigfillset(&blockMask);", "    sigemptyset(&blockMask);"))
m("t06_mask_some", "P06", (IFF, "    sigfillset(&blockMask);", "    sigfillset(&blockMask);\n    sigdelset(&blockMask, SIGINT);"))
m("t06_restore_unblock", "P06", (IFF, "pthread_sigmask(SIG_SETMASK, &mOriginalSigMask, nullptr);", "pthread_sigmask(SIG_UNBLOCK, &mOriginalSigMask, nullptr);"))
m("t06_saved_lost", "P06", (IFF, "pthread_sigmask(SIG_BLOCK, &blockMask, &mOriginalSigMask);", "pthread_sigmask(SIG_BLOCK, &blockMask, nullptr);"))
m("t06_cs_no_mask", "P06", (CSH, "    InterruptsFreeSection mInterruptsBlock;\n", ""))
m("t06_cs_unlock_missing", "P06", (CSF, "    mSync.unlock();\n", "    // mSync.unlock();\n"))
m("t06_string", "P06", (IM, "    bool res = false;\n    // TODO: this part", "    const std::string name = std::to_string(event);\n    bool res = (false == name.empty()) && false;\n    // TODO: this part"))
m("t06_wakeup_isset", "P06", (SD, "            lck.lock();\n            mWakeupRequested = false;", "            mWakeupRequested = false;"), (SD, "            // NOTE: interrupts must be blocked while holding mWakeupSync\n            InterruptsFreeSection interruptsBlock;\n", ""))
r("r_i_std_helper", (SD, "void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {", "static void wakeUp(Mutex& sync, bool& flag, ConditionVariable& cv) {\n    CriticalSection cs(sync);\n\n    flag = true;\n    cv.notify();\n}\n\nvoid HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {"),
  (SD, "    CriticalSection cs(mWakeupSync);\n\n    mWakeupRequested = true;\n    mEmitEvent.notify();", "    wakeUp(mWakeupSync, mWakeupRequested, mEmitEvent);"))
r("r_i_early", (IM, "    if (dispatcherPtr) {\n        res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);\n    }\n\n    return res;", "    if (!dispatcherPtr) {\n        return false;\n    }\n\n    return dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);"))
r("r_i_cond", (IM, "    if (dispatcherPtr) {\n        res = dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event);\n    }\n\n    return res;", "    res = dispatcherPtr ? dispatcherPtr->enqueueEvent(mEnqueuedEventsHandlerId, event) : false;\n    return res;"))
r("r_i_lockguard_ifs", (B, "        CriticalSection cs(mEnqueuedEventsSync);\n\n        if (mEnqueuedEvents.size()", "        InterruptsFreeSection noInterrupts;\n        LockGuard cs(mEnqueuedEventsSync);\n\n        if (mEnqueuedEvents.size()"), (B, "#include \"hsmcpp/os/LockGuard.hpp\"", "#include \"hsmcpp/os/InterruptsFreeSection.hpp\"\n#include \"hsmcpp/os/LockGuard.hpp\""))
r("r_i_mask_helper", (IFF, "InterruptsFreeSection::InterruptsFreeSection() {\n    sigset_t blockMask;", "static sigset_t allSignals() {\n    sigset_t all;\n    sigfillset(&all);\n    return all;\n}\n\nInterruptsFreeSection::InterruptsFreeSection() {\n    const sigset_t blockMask = allSignals();"), (IFF, "    sigfillset(&blockMask);\n", ""))
r("r_i_setmask", (IFF, "pthread_sigmask(SIG_BLOCK, &blockMask", "pthread_sigmask(SIG_SETMASK, &blockMask"))
r("r_i_glib_const", (GL, "    char dummy = 1;\n", "    const char dummy = 1;\n"))
r("r_i_cs_base", (CSH, "class CriticalSection {", "class CriticalSection : private InterruptsFreeSection {"), (CSH, "    InterruptsFreeSection mInterruptsBlock;\n", ""))

# ---- P25 native resources
m("t25_stop_no_source_unref", "P25", (GL, "        g_source_destroy(mIoSource);\n        g_source_unref(mIoSource);\n", "        g_source_destroy(mIoSource);\n"))
m("t25_stop_no_source_destroy", "P25", (GL, "        g_source_destroy(mIoSource);\n        g_source_unref(mIoSource);\n", "        g_source_unref(mIoSource);\n"))
m("t25_stop_source_not_reset", "P25", (GL, "        g_source_unref(mIoSource);\n        mIoSource = nullptr;\n", "        g_source_unref(mIoSource);\n"))
m("t25_stop_channel_leak", "P25", (GL, "    if (nullptr != mReadChannel) {\n        g_io_channel_unref(mReadChannel);\n        mReadChannel = nullptr;\n        close", "    if (nullptr != mReadChannel) {\n        mReadChannel = nullptr;\n        close"))
m("t25_stop_channel_not_reset", "P25", (GL, "        mReadChannel = nullptr;\n        close(mPipeFD[0]);", "        close(mPipeFD[0]);"))
m("t25_stop_fd1_leak", "P25", (GL, "        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n", "        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n"))
m("t25_stop_fd0_twice", "P25", (GL, "        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n", "        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[0]);\n"))
m("t25_stop_fd_not_reset", "P25", (GL, "        close(mPipeFD[1]);\n        mPipeFD[0] = -1;\n        mPipeFD[1] = -1;\n    }\n}", "        close(mPipeFD[1]);\n        mPipeFD[0] = -1;\n    }\n}"))
m("t25_start_fail_channel", "P25", (GL, "            if (nullptr != mReadChannel) {\n                g_io_channel_unref(mReadChannel);\n                mReadChannel = nullptr;\n            }\n\n            if", "            if"))
m("t25_start_fail_fd", "P25", (GL, "            if ((-1) != mPipeFD[0]) {\n                close(mPipeFD[0]);\n                close(mPipeFD[1]);\n                mPipeFD[0] = -1;\n                mPipeFD[1] = -1;\n            }\n", ""))
m("t25_start_fail_reset_only", "P25", (GL, "            if ((-1) != mPipeFD[0]) {\n                close(mPipeFD[0]);\n                close(mPipeFD[1]);\n", "            if ((-1) != mPipeFD[0]) {\n                close(mPipeFD[0]);\n"))
m("t25_start_true_without_source", "P25", (GL, "                    result = true;\n                } else {", "                } else {"), (GL, "            if (nullptr != mReadChannel) {\n                mIoSource", "            if (nullptr != mReadChannel) {\n                result = true;\n                mIoSource"))
m("t25_start_always_pipe", "P25", (GL, "    if ((-1) == mPipeFD[0]) {\n        int rc", "    if (nullptr == mIoSource || (-1) != mPipeFD[1]) {\n        int rc"))
m("t25_timer_stop_no_unref", "P25", (GL, "        g_source_destroy(it->second);\n        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);", "        g_source_destroy(it->second);\n        mNativeTimerHandlers.erase(it);"))
m("t25_timer_expire_no_unref", "P25", (GL, "                g_source_unref(itTimer->second);\n", ""))
m("t25_timer_expire_unref_always", "P25", (GL, "            if ((timerData->first->mNativeTimerHandlers.end() != itTimer) && (g_main_current_source() == itTimer->second)) {\n                g_source_unref(itTimer->second);\n", "            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {\n                g_source_unref(itTimer->second);\n            }\n            if ((timerData->first->mNativeTimerHandlers.end() != itTimer) && (g_main_current_source() == itTimer->second)) {\n"))
m("t25_timer_stop_unref_twice", "P25", (GL, "        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);", "        g_source_unref(it->second);\n        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);"))
m("t25_timer_all_no_unref", "P25", (GL, "        g_source_destroy(it->second);\n        g_source_unref(it->second);\n    }", "        g_source_destroy(it->second);\n    }"))
m("t25_timer_all_not_cleared", "P25", (GL, "        g_source_unref(it->second);\n    }\n\n    mNativeTimerHandlers.clear();", "        g_source_unref(it->second);\n    }\n"))
m("t25_timer_unref_at_start", "P25", (GL, "        g_source_attach(timeoutSource, mContext);\n", "        g_source_attach(timeoutSource, mContext);\n        g_source_unref(timeoutSource);\n"))
m("t25_timer_data_leak", "P25", (GL, "&HsmEventDispatcherGLib::onFreeTimerData);", "nullptr);"))
m("t25_timer_data_no_delete", "P25", (GL, "    delete reinterpret_cast<TimerData_t*>(timerData);", "    (void)timerData;"))
m("t25_qt_stop_no_delete", "P25,P24", (QT, "        it->second->deleteLater();\n        mNativeTimerHandlers.erase(it);", "        it->second->stop();\n        mNativeTimerHandlers.erase(it);"))
m("t25_qt_main_timer_leak", "P25", (QT, "                mainthreadTimer->deleteLater();\n", ""))
m("t25_qt_all_no_delete", "P25,P24", (QT, "        it->second->deleteLater();\n    }", "        it->second->stop();\n    }"))
m("t25_dtor_no_stop", "P25", (GL, "    HSM_TRACE_CALL();\n\n    HsmEventDispatcherGLib::stop();", "    HSM_TRACE_CALL();"))
r("r_25_close_helper", (GL, "void HsmEventDispatcherGLib::stop() {", "static void closePipe(int (&fds)[2]) {\n    for (int i = 0; i < 2; ++i) {\n        close(fds[i]);\n        fds[i] = -1;\n    }\n}\n\nvoid HsmEventDispatcherGLib::stop() {"),
  (GL, "        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n        mPipeFD[0] = -1;\n        mPipeFD[1] = -1;\n", "        mReadChannel = nullptr;\n        closePipe(mPipeFD);\n"))
r("r_25_close_loop", (GL, "        mReadChannel = nullptr;\n        close(mPipeFD[0]);\n        close(mPipeFD[1]);\n        mPipeFD[0] = -1;\n        mPipeFD[1] = -1;\n", "        mReadChannel = nullptr;\n        for (int& fd : mPipeFD) {\n            close(fd);\n            fd = -1;\n        }\n"))
r("r_25_early_returns", (GL, "    // check if dispatcher was already started\n    if ((-1) == mPipeFD[0]) {\n        int rc = pipe(mPipeFD);", "    if ((-1) != mPipeFD[0]) {\n        return true;\n    }\n    {\n        const int rc = pipe(mPipeFD);"),
  (GL, "    } else {\n        result = true;\n    }\n\n    return result;\n}\n\nvoid HsmEventDispatcherGLib::stop", "    }\n\n    return result;\n}\n\nvoid HsmEventDispatcherGLib::stop"))
r("r_25_undo_now", (GL, "                } else {\n                    HSM_TRACE_ERROR(\"failed to create io source\");\n                }", "                } else {\n                    HSM_TRACE_ERROR(\"failed to create io source\");\n                    g_io_channel_unref(mReadChannel);\n                    mReadChannel = nullptr;\n                }"),
  (GL, "            if (nullptr != mReadChannel) {\n                g_io_channel_unref(mReadChannel);\n                mReadChannel = nullptr;\n            }\n\n            if", "            if"))
r("r_25_local_source", (GL, "    if (nullptr != mIoSource) {\n        g_source_destroy(mIoSource);\n        g_source_unref(mIoSource);\n        mIoSource = nullptr;\n    }", "    GSource* source = mIoSource;\n    mIoSource = nullptr;\n    if (source) {\n        g_source_destroy(source);\n        g_source_unref(source);\n    }"))
r("r_25_start_flip", (GL, "    if (nullptr != mIoSource) {\n        g_source_destroy", "    if (mIoSource) {\n        g_source_destroy"))
r("r_25_start_locals", (GL, "        int rc = pipe(mPipeFD);\n\n        if (0 == rc) {", "        int fds[2] = {-1, -1};\n        int rc = pipe(fds);\n\n        if (0 == rc) {\n            mPipeFD[0] = fds[0];\n            mPipeFD[1] = fds[1];"))
r("r_25_release_helper", (GL, "void HsmEventDispatcherGLib::stop() {", "static void releaseSource(GSource*& src) {\n    if (nullptr != src) {\n        g_source_destroy(src);\n        g_source_unref(src);\n        src = nullptr;\n    }\n}\n\nvoid HsmEventDispatcherGLib::stop() {"),
  (GL, "    if (nullptr != mIoSource) {\n        g_source_destroy(mIoSource);\n        g_source_unref(mIoSource);\n        mIoSource = nullptr;\n    }", "    releaseSource(mIoSource);"))
r("r_25_timer_release_helper", (GL, "void HsmEventDispatcherGLib::unregisterAllTimerHandlers() {", "static void releaseTimer(GSource* src) {\n    g_source_destroy(src);\n    g_source_unref(src);\n}\n\nvoid HsmEventDispatcherGLib::unregisterAllTimerHandlers() {"),
  (GL, "        g_source_destroy(it->second);\n        g_source_unref(it->second);\n    }", "        releaseTimer(it->second);\n    }"), (GL, "        g_source_destroy(it->second);\n        g_source_unref(it->second);\n        mNativeTimerHandlers.erase(it);", "        releaseTimer(it->second);\n        mNativeTimerHandlers.erase(it);"))
r("r_25_timer_rangefor", (GL, "    for (auto it = mNativeTimerHandlers.begin(); it != mNativeTimerHandlers.end(); ++it) {\n        g_source_destroy(it->second);\n        g_source_unref(it->second);\n    }", "    for (auto& timer : mNativeTimerHandlers) {\n        GSource* const source = timer.second;\n        g_source_destroy(source);\n        g_source_unref(source);\n    }"))
r("r_25_qt_local", (QT, "        it->second->deleteLater();\n        mNativeTimerHandlers.erase(it);", "        QTimer* nativeTimer = it->second;\n        mNativeTimerHandlers.erase(it);\n        nativeTimer->deleteLater();"))
r("r_25_qt_event_local", (QT, "    QCoreApplication::postEvent(this, new QEvent(mQtDispatchEventType));", "    QEvent* ev = new QEvent(mQtDispatchEventType);\n    QCoreApplication::postEvent(this, ev);"))
r("r_25_timerdata_local", (GL, "        g_source_set_callback(timeoutSource,\n", "        TimerData_t* const timerData = new TimerData_t(this, timerID);\n        g_source_set_callback(timeoutSource,\n"), (GL, "                              new TimerData_t(this, timerID),\n", "                              timerData,\n"))
# ---------------------------------------------------------------------- P09
m("t09_timer_thread_always", "P09", (SD, "    if (false == mTimersThread.joinable()) {\n        mTimersThread =", "    if ((false == mTimersThread.joinable()) || mRunningTimers.empty()) {\n        mTimersThread ="))
m("t09_start_again_when_stopped", "P09", (SD, "    if (false == mDispatcherThread.joinable()) {\n        HSM_TRACE_DEBUG(\"starting", "    if ((false == mDispatcherThread.joinable()) || mStopDispatcher) {\n        HSM_TRACE_DEBUG(\"starting"))
m("t09_flag_not_cleared", "P09", (SD, "        mStopDispatcher = false;\n        mDispatcherThread", "        mDispatcherThread"))
m("t09_flag_cleared_late", "P09", (SD, "        mStopDispatcher = false;\n        mDispatcherThread = std::thread(&HsmEventDispatcherSTD::doDispatching, this);\n", "        mDispatcherThread = std::thread(&HsmEventDispatcherSTD::doDispatching, this);\n        mStopDispatcher = false;\n"))
m("t09_join_no_timers", "P09", (SD, "    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();\n    }\n}", "}"))
m("t09_join_nested", "P09", (SD, "        mDispatcherThread.join();\n    }\n\n    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();\n    }\n}", "        mDispatcherThread.join();\n\n        if (true == mTimersThread.joinable()) {\n            mTimersThread.join();\n        }\n    }\n}"))
m("t09_join_else", "P09", (SD, "    }\n\n    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();", "    } else if (true == mTimersThread.joinable()) {\n        mTimersThread.join();"))
m("t09_join_unchecked", "P09", (SD, "    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();\n    }", "    mTimersThread.join();"))
m("t09_join_wrong_check", "P09", (SD, "    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();", "    if (true == mDispatcherThread.joinable()) {\n        mTimersThread.join();"))
m("t09_timers_detach", "P09", (SD, "        mTimersThread.join();", "        mTimersThread.detach();"))
m("t09_dtor_no_join", "P09", (SD, "    HsmEventDispatcherSTD::stop();\n    join();", "    HsmEventDispatcherSTD::stop();"))
m("t09_dtor_join_first", "P09", (SD, "    HsmEventDispatcherSTD::stop();\n    join();", "    join();\n    HsmEventDispatcherSTD::stop();"))
m("t09_stop_no_timers_notify", "P09,P04", (SD, "    notifyDispatcherAboutEvent();\n    notifyTimersThread();\n}", "    notifyDispatcherAboutEvent();\n}"))
m("t09_stop_notify_first", "P09,P04", (SD, "    HsmEventDispatcherBase::stop();\n    unregisterAllEventHandlers();\n    notifyDispatcherAboutEvent();\n", "    notifyDispatcherAboutEvent();\n    HsmEventDispatcherBase::stop();\n    unregisterAllEventHandlers();\n"))
m("t09_loop_ignores", "P09", (SD, "    while (false == mStopDispatcher) {\n        if (false == mRunningTimers.empty()) {", "    while ((false == mStopDispatcher) || (false == mRunningTimers.empty())) {\n        if (false == mRunningTimers.empty()) {"))
m("t09_loop_copy", "P09", (SD, "    while (false == mStopDispatcher) {\n        HsmEventDispatcherBase::dispatchPendingEvents();", "    const bool finish = mStopDispatcher;\n    while (false == finish) {\n        HsmEventDispatcherBase::dispatchPendingEvents();"))
m("t09_timers_flag_copy", "P09", (SD, "    UniqueLock lck(mRunningTimersSync);\n\n    while (false == mStopDispatcher) {", "    UniqueLock lck(mRunningTimersSync);\n    const bool finish = mStopDispatcher;\n\n    while (false == finish) {"))
m("t09_dispatch_rewait", "P09", (SD, "            mWakeupRequested = false;\n            HSM_TRACE_DEBUG(\"woke up\");", "            mWakeupRequested = false;\n            mEmitEvent.wait_for(lck, 1, [=]() { return mWakeupRequested; });\n            lck.lock();\n            HSM_TRACE_DEBUG(\"woke up\");"))
m("t09_start_result", "P09", (SD, "        result = mDispatcherThread.joinable();", "        result = !mDispatcherThread.joinable();"))
m("t09_start_true", "P09", (SD, "    if (false == mDispatcherThread.joinable()) {\n        HSM_TRACE_DEBUG(\"starting", "    result = true;\n    if (mStopDispatcher) {\n        return result;\n    }\n    if (false == mDispatcherThread.joinable()) {\n        HSM_TRACE_DEBUG(\"starting"))
r("r_09_join_helper", (SD, "void HsmEventDispatcherSTD::join() {", "static void joinThread(std::thread& thread) {\n    if (thread.joinable()) {\n        thread.join();\n    }\n}\n\nvoid HsmEventDispatcherSTD::join() {"),
  (SD, "    if (true == mDispatcherThread.joinable()) {\n        mDispatcherThread.join();\n    }\n\n    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();\n    }", "    joinThread(mDispatcherThread);\n    joinThread(mTimersThread);"))
r("r_09_join_loop", (SD, "    if (true == mDispatcherThread.joinable()) {\n        mDispatcherThread.join();\n    }\n\n    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();\n    }", "    for (std::thread* worker : {&mDispatcherThread, &mTimersThread}) {\n        if (worker->joinable()) {\n            worker->join();\n        }\n    }"))
r("r_09_join_order", (SD, "    if (true == mDispatcherThread.joinable()) {\n        mDispatcherThread.join();\n    }\n\n    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();\n    }", "    if (mTimersThread.joinable()) {\n        mTimersThread.join();\n    }\n\n    if (mDispatcherThread.joinable()) {\n        mDispatcherThread.join();\n    }"))
r("r_09_early_return", (SD, "    if (false == mDispatcherThread.joinable()) {\n        HSM_TRACE_DEBUG(\"starting thread...\");", "    if (mDispatcherThread.joinable()) {\n        return true;\n    }\n    {\n        HSM_TRACE_DEBUG(\"starting thread...\");"),
  (SD, "    } else {\n        result = (mDispatcherThread.get_id() != std::thread::id());\n    }", "    }"))
r("r_09_lambda_thread", (SD, "std::thread(&HsmEventDispatcherSTD::doDispatching, this)", "std::thread([this]() { doDispatching(); })"))
r("r_09_local_thread", (SD, "        mTimersThread = std::thread(&HsmEventDispatcherSTD::handleTimers, this);", "        std::thread worker(&HsmEventDispatcherSTD::handleTimers, this);\n        mTimersThread = std::move(worker);"))
r("r_09_swap", (SD, "        mTimersThread = std::thread(&HsmEventDispatcherSTD::handleTimers, this);", "        std::thread worker(&HsmEventDispatcherSTD::handleTimers, this);\n        mTimersThread.swap(worker);"))
r("r_09_get_id", (SD, "    if (true == mTimersThread.joinable()) {\n        mTimersThread.join();", "    if (mTimersThread.get_id() != std::thread::id()) {\n        mTimersThread.join();"))
r("r_09_running_helper", (SD, "    while (false == mStopDispatcher) {\n        if (false == mRunningTimers.empty()) {", "    for (;;) {\n        if (mStopDispatcher) {\n            break;\n        }\n        if (false == mRunningTimers.empty()) {"))
r("r_09_dtor_inline", (SD, "    HsmEventDispatcherSTD::stop();\n    join();", "    HsmEventDispatcherSTD::stop();\n    if (mDispatcherThread.joinable()) {\n        mDispatcherThread.join();\n    }\n    if (mTimersThread.joinable()) {\n        mTimersThread.join();\n    }"))
r("r_09_dispatch_dowhile", (SD, "    while (false == mStopDispatcher) {\n        HsmEventDispatcherBase::dispatchPendingEvents();", "    bool running = !mStopDispatcher;\n    for (; running; running = !mStopDispatcher) {\n        HsmEventDispatcherBase::dispatchPendingEvents();"))
# ---------------------------------------------------------------------- P11
UL, CV, AF, LG, CS = "src/os/common/UniqueLock.cpp", "src/os/stl/ConditionVariable.cpp", "src/os/stl/AtomicFlag.cpp", "src/os/common/LockGuard.cpp", "src/os/common/CriticalSection.cpp"
MXH, ULH, CVH, LGH = "include/hsmcpp/os/stl/Mutex.hpp", "include/hsmcpp/os/common/UniqueLock.hpp", "include/hsmcpp/os/stl/ConditionVariable.hpp", "include/hsmcpp/os/common/LockGuard.hpp"
m("t11_assign_no_unlock", "P11", (UL, "    if (mOwnsLock) {\n        unlock();\n    }\n", ""))
m("t11_assign_unlock_wrong", "P11", (UL, "    if (mOwnsLock) {\n        unlock();", "    if (src.mOwnsLock) {\n        unlock();"))
m("t11_assign_src_kept", "P11", (UL, "    src.mSync = nullptr;\n    src.mOwnsLock = false;\n\n    return", "    src.mSync = nullptr;\n\n    return"))
m("t11_assign_owns_lost", "P11", (UL, "    mOwnsLock = src.mOwnsLock;\n", "    mOwnsLock = (nullptr != mSync);\n"))
m("t11_move_src_kept", "P11", (UL, "    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;\n    src.mOwnsLock = false;", "    , mOwnsLock(src.mOwnsLock) {\n    src.mOwnsLock = false;"))
m("t11_move_owns_kept", "P11", (UL, "    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;\n    src.mOwnsLock = false;", "    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;"))
m("t11_lock_no_flag", "P11", (UL, "        mSync->lock();\n        mOwnsLock = true;", "        mSync->lock();"))
m("t11_lock_twice", "P11", (UL, "(nullptr != mSync) && (false == mOwnsLock)", "nullptr != mSync"))
m("t11_unlock_no_flag", "P11", (UL, "        mSync->unlock();\n        mOwnsLock = false;", "        mSync->unlock();"))
m("t11_unlock_unowned", "P11", (UL, "(nullptr != mSync) && (true == mOwnsLock)", "nullptr != mSync"))
m("t11_dtor_release", "P11", (UL, "UniqueLock::~UniqueLock() {\n    unlock();", "UniqueLock::~UniqueLock() {\n    release();"))
m("t11_release_keeps", "P11", (UL, "    mSync = nullptr;\n    mOwnsLock = false;\n\n    return res;", "    mSync = nullptr;\n\n    return res;"))
m("t11_release_unlocks", "P11", (UL, "    Mutex* res = mSync;\n", "    Mutex* res = mSync;\n\n    unlock();\n"))
m("t11_release_null", "P11", (UL, "    return res;", "    return mSync;"))
m("t11_owns_mutex", "P11", (ULH, "        return mOwnsLock;", "        return (nullptr != mSync);"))
m("t11_waitfor_no_unlock", "P11", (CV, "    // no need to unlock on exit if lock already belonged to UniqueLock object\n    if (true == sync.owns_lock()) {\n        lck.release();\n        sync.unlock();\n    }\n\n    return res;", "    if (true == sync.owns_lock()) {\n        lck.release();\n    }\n\n    return res;"))
m("t11_waitfor_no_release", "P11", (CV, "        lck.release();\n        sync.unlock();\n    }\n\n    return res;", "        sync.unlock();\n    }\n\n    return res;"))
m("t11_waitfor_seconds", "P11", (CV, "mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs), stopWaiting)", "mVariable.wait_for(lck, std::chrono::microseconds(timeoutMs), stopWaiting)"))
m("t11_waitfor_nopred", "P11", (CV, "        res = mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs), stopWaiting);", "        res = (std::cv_status::timeout != mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs)));"))
m("t11_waitfor_result", "P11", (CV, "(std::cv_status::timeout != mVariable", "(std::cv_status::timeout == mVariable"))
m("t11_wait_nopred", "P11", (CV, "    if (stopWaiting) {\n        mVariable.wait(lck, stopWaiting);\n    } else {\n        mVariable.wait(lck);\n    }", "    mVariable.wait(lck);"))
m("t11_wait_invpred", "P11", (CV, "        mVariable.wait(lck, stopWaiting);\n", "        mVariable.wait(lck, [&]() { return !stopWaiting(); });\n"))
m("t11_wait_adopt_unowned", "P11", (CV, "void ConditionVariable::wait(UniqueLock& sync, const std::function<bool()>& stopWaiting) {\n    std::unique_lock<std::mutex> lck;\n\n    if (false == sync.owns_lock()) {", "void ConditionVariable::wait(UniqueLock& sync, const std::function<bool()>& stopWaiting) {\n    std::unique_lock<std::mutex> lck;\n\n    if (true == sync.owns_lock()) {"))
m("t11_wait_unlocked_between", "P11", (CV, "    if (stopWaiting) {\n        mVariable.wait(lck, stopWaiting);", "    if (stopWaiting) {\n        if (stopWaiting()) {\n            lck.release();\n            return;\n        }\n        mVariable.wait(lck, stopWaiting);"))
m("t11_notify_one", "P11", (CVH, "    mVariable.notify_all();", "    mVariable.notify_one();"))
m("t11_flag_set_store", "P11", (AF, "    return mValue.exchange(true);", "    const bool old = mValue.load();\n    if (old) {\n        mValue.store(true);\n    }\n    return old;"))
m("t11_flag_exchange_false", "P11", (AF, "mValue.exchange(true)", "!mValue.exchange(true)"))
m("t11_flag_clear", "P11", (AF, "mValue.store(false);", "mValue.exchange(mValue.load());"))
m("t11_flag_wait_pred", "P11", (AF, "return (mValue.load() != old);", "return (mValue.load() == old);"))
m("t11_flag_wait_if", "P11", (AF, "    if (mValue.load() == old) {", "    if (mValue.load() != old) {"))
m("t11_flag_wait_true", "P11", (AF, "[&]() { return (mValue.load() != old); }", "[&]() { return mValue.load(); }"))
m("t11_flag_notify", "P11", (AF, "    mWaitCond.notify();", "    if (mValue.load()) {\n        mWaitCond.notify();\n    }"))
m("t11_guard_no_unlock", "P11", (LG, "LockGuard::~LockGuard() {\n    mSync.unlock();", "LockGuard::~LockGuard() {"))
m("t11_section_no_lock", "P11", (CS, "    mSync.lock();", "    (void)mSync;"))
m("t11_guard_copyable", "P11", (LGH, "    LockGuard(const LockGuard&) = delete;\n    LockGuard& operator=(const LockGuard&) = delete;\n    LockGuard(LockGuard&&) = delete;\n    LockGuard& operator=(LockGuard&&) = delete;", "public:\n    LockGuard(const LockGuard&) = default;\nprivate:\n    LockGuard& operator=(const LockGuard&) = delete;\n    LockGuard& operator=(LockGuard&&) = delete;"))
m("t11_trylock_guard", "P11", (MXH, "        mSync.lock();", "        (void)mSync.try_lock();"))
r("r_11_assign_always", (UL, "    if (mOwnsLock) {\n        unlock();\n    }\n", "    unlock();\n"))
r("r_11_assign_release", (UL, "    mSync = src.mSync;\n    mOwnsLock = src.mOwnsLock;\n\n    src.mSync = nullptr;\n    src.mOwnsLock = false;\n\n    return", "    mOwnsLock = src.mOwnsLock;\n    mSync = src.release();\n\n    return"))
r("r_11_move_release", (UL, "    : mSync(src.mSync)\n    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;\n    src.mOwnsLock = false;", "    : mSync(src.mSync)\n    , mOwnsLock(src.mOwnsLock) {\n    (void)src.release();"))
r("r_11_move_assign", (UL, "    : mSync(src.mSync)\n    , mOwnsLock(src.mOwnsLock) {\n    src.mSync = nullptr;\n    src.mOwnsLock = false;", "{\n    *this = std::move(src);"), (UL, "#include", "#include <utility>\n#include"))
r("r_11_lock_flip", (UL, "    if ((nullptr != mSync) && (false == mOwnsLock)) {\n        mSync->lock();\n        mOwnsLock = true;\n    }", "    if ((nullptr == mSync) || mOwnsLock) {\n        return;\n    }\n\n    mSync->lock();\n    mOwnsLock = true;"))
r("r_11_unlock_order", (UL, "        mSync->unlock();\n        mOwnsLock = false;", "        mOwnsLock = false;\n        mSync->unlock();"))
r("r_11_cv_helper", (CV, "void ConditionVariable::wait(", "static std::unique_lock<std::mutex> adoptLock(UniqueLock& sync) {\n    std::unique_lock<std::mutex> lck;\n\n    if (sync.owns_lock()) {\n        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::adopt_lock);\n    } else {\n        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::try_to_lock);\n    }\n\n    return lck;\n}\n\nvoid ConditionVariable::wait("),
  (CV, "    std::unique_lock<std::mutex> lck;\n\n    if (false == sync.owns_lock()) {\n        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::try_to_lock);\n    } else {\n        lck = std::unique_lock<std::mutex>(sync.mutex()->nativeHandle(), std::adopt_lock);\n    }\n\n    // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::function has bool() operator\n    if (stopWaiting) {\n        mVariable.wait(", "    std::unique_lock<std::mutex> lck = adoptLock(sync);\n\n    if (stopWaiting) {\n        mVariable.wait("))
r("r_11_wait_loop", (CV, "        mVariable.wait(lck, stopWaiting);\n", "        while (false == stopWaiting()) {\n            mVariable.wait(lck);\n        }\n"))
r("r_11_waitfor_local", (CV, "    bool res = false;\n", "    bool res = false;\n    const std::chrono::milliseconds timeout(timeoutMs);\n"), (CV, "mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs), stopWaiting)", "mVariable.wait_for(lck, timeout, stopWaiting)"))
r("r_11_waitfor_status", (CV, "        res = (std::cv_status::timeout != mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs)));", "        const std::cv_status status = mVariable.wait_for(lck, std::chrono::milliseconds(timeoutMs));\n        res = (status == std::cv_status::no_timeout);"))
r("r_11_flag_noif", (AF, "    if (mValue.load() == old) {\n        UniqueLock lk(mSync);", "    if (test() == old) {\n        UniqueLock lk = lock();"))
r("r_11_flag_ops", (AF, "    mValue.store(false);", "    mValue = false;"), (AF, "    return mValue.load();", "    return mValue;"))
# ---------------------------------------------------------------------- P20
m("t20_exit_actions_always", "P20", ("    if (true == res) {\n        executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);\n    }", "    executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);"))
m("t20_exit_actions_first", "P20", ("    bool res = true;\n    auto it = mRegisteredStates.find(state);\n\n    if ((mRegisteredStates.end() != it) && it->second.onExiting) {", "    bool res = true;\n    auto it = mRegisteredStates.find(state);\n\n    executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);\n    if ((mRegisteredStates.end() != it) && it->second.onExiting) {"),
  ("    if (true == res) {\n        executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);\n    }", ""))
m("t20_enter_only_with_cb", "P20", ("            logHsmAction(HsmLogAction::CALLBACK_ENTER, INVALID_HSM_STATE_ID, state, INVALID_HSM_EVENT_ID, (false == res), args);\n        }\n\n        // execute state action only if transition was accepted by client\n        if (true == res) {\n            executeStateAction(state, StateActionTrigger::ON_STATE_ENTRY);\n        }\n", "            logHsmAction(HsmLogAction::CALLBACK_ENTER, INVALID_HSM_STATE_ID, state, INVALID_HSM_EVENT_ID, (false == res), args);\n\n        // execute state action only if transition was accepted by client\n        if (true == res) {\n            executeStateAction(state, StateActionTrigger::ON_STATE_ENTRY);\n        }\n        }\n"))
m("t20_enter_trigger", "P20", ("executeStateAction(state, StateActionTrigger::ON_STATE_ENTRY)", "executeStateAction(state, StateActionTrigger::ON_STATE_EXIT)"))
m("t20_enter_active_too", "P20", ("        if (true == res) {\n            executeStateAction(state, StateActionTrigger::ON_STATE_ENTRY);\n        }\n    }\n\n    return res;", "    }\n\n    if (true == res) {\n        executeStateAction(state, StateActionTrigger::ON_STATE_ENTRY);\n    }\n    return res;"))
m("t20_first_only", "P20", ("                HSM_TRACE_WARNING(\"unsupported action <%d>\", SC2INT(actionInfo.action));\n            }\n", "                HSM_TRACE_WARNING(\"unsupported action <%d>\", SC2INT(actionInfo.action));\n            }\n            break;\n"))
m("t20_find_one", "P20", ("    auto itRange = mRegisteredActions.equal_range(std::make_pair(state, actionTrigger));", "    auto itRange = mRegisteredActions.equal_range(std::make_pair(state, StateActionTrigger::ON_STATE_ENTRY));"))
m("t20_interval_id", "P20", ("                                          actionInfo.actionArgs[1].toInt64(),\n", "                                          actionInfo.actionArgs[0].toInt64(),\n"))
m("t20_single_shot", "P20", ("                                          actionInfo.actionArgs[2].toBool());", "                                          false == actionInfo.actionArgs[2].toBool());"))
m("t20_stop_restart", "P20", ("                dispatcherPtr->restartTimer(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()));", "                dispatcherPtr->stopTimer(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()));"))
m("t20_restart_missing", "P20", ("            } else if (StateAction::RESTART_TIMER == actionInfo.action) {\n                dispatcherPtr->restartTimer(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()));\n", ""))
m("t20_args_from_0", "P20", ("for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i)", "for (size_t i = 0; i < actionInfo.actionArgs.size(); ++i)"))
m("t20_args_short", "P20", ("for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i)", "for (size_t i = 1; i < actionInfo.actionArgs.size() - 1U; ++i)"))
m("t20_args_if_2", "P20", ("if (actionInfo.actionArgs.size() > 1U) {", "if (actionInfo.actionArgs.size() > 2U) {"))
m("t20_args_reverse", "P20", ("for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i)", "for (size_t i = actionInfo.actionArgs.size() - 1U; i > 0; --i)"))
m("t20_args_same", "P20", ("transitionArgs.emplace_back(actionInfo.actionArgs[i]);", "transitionArgs.emplace_back(actionInfo.actionArgs[1]);"))
m("t20_args_dropped", "P20", ("static_cast<EventID_t>(actionInfo.actionArgs[0].toInt64()), std::move(transitionArgs));", "static_cast<EventID_t>(actionInfo.actionArgs[0].toInt64()), VariantVector_t());"))
m("t20_post_sync", "P20", ("transitionWithArgsArray(static_cast<EventID_t>(actionInfo.actionArgs[0].toInt64()), std::move(transitionArgs));", "(void)transitionExWithArgsArray(static_cast<EventID_t>(actionInfo.actionArgs[0].toInt64()), true, false, 0, std::move(transitionArgs));"))
m("t20_reg_size_ge", "P20", ("newAction.actionArgs.size() == 3U", "newAction.actionArgs.size() >= 2U"))
m("t20_reg_bool_missing", "P20", (" &&\n                        newAction.actionArgs[1].isNumeric() && newAction.actionArgs[2].isBool();", " &&\n                        newAction.actionArgs[1].isNumeric();"))
m("t20_reg_or", "P20", ("argsValid = (newAction.actionArgs.size() == 1U) && newAction.actionArgs[0].isNumeric();", "argsValid = (newAction.actionArgs.size() == 1U) || newAction.actionArgs[0].isNumeric();"))
m("t20_reg_empty", "P20", ("argsValid = (false == newAction.actionArgs.empty()) && newAction.actionArgs[0].isNumeric();", "argsValid = newAction.actionArgs[0].isNumeric();"))
m("t20_reg_transition_one", "P20", ("argsValid = (false == newAction.actionArgs.empty()) && newAction.actionArgs[0].isNumeric();", "argsValid = (newAction.actionArgs.size() == 1U) && newAction.actionArgs[0].isNumeric();"))
m("t20_reg_stop_missing", "P20", ("        case StateAction::RESTART_TIMER:\n        case StateAction::STOP_TIMER:\n", "        case StateAction::RESTART_TIMER:\n"))
m("t20_reg_result", "P20", ("        (void)mRegisteredActions.emplace(std::make_pair(state, actionTrigger), newAction);\n        result = true;\n    } else {\n        HSM_TRACE_ERROR(\"invalid arguments\");\n    }", "        (void)mRegisteredActions.emplace(std::make_pair(state, actionTrigger), newAction);\n    } else {\n        HSM_TRACE_ERROR(\"invalid arguments\");\n    }\n    result = (action != StateAction::TRANSITION) || argsValid;"))
m("t20_reg_no_action", "P20", ("        newAction.action = action;\n        (void)mRegisteredActions", "        newAction.action = argsValid ? StateAction::START_TIMER : action;\n        (void)mRegisteredActions"))
m("t20_reg_trigger", "P20", ("mRegisteredActions.emplace(std::make_pair(state, actionTrigger), newAction)", "mRegisteredActions.emplace(std::make_pair(state, StateActionTrigger::ON_STATE_ENTRY), newAction)"))
m("t20_reg_replace", "P20", ("        newAction.action = action;\n        (void)mRegisteredActions", "        newAction.action = action;\n        (void)mRegisteredActions.erase(std::make_pair(state, actionTrigger));\n        (void)mRegisteredActions"))
m("t20_timer_id_event", "P20", ("        transitionSimple(it->second);", "        transitionSimple(it->first);"))
m("t20_timer_twice", "P20", ("        transitionSimple(it->second);", "        transitionSimple(it->second);\n        transitionSimple(it->second);"))
m("t20_timer_default", "P20", ("    auto it = mTimers.find(id);\n\n    if (mTimers.end() != it) {\n        transitionSimple(it->second);\n    }", "    transitionSimple(mTimers[id]);"))
m("t20_api_start_args", "P20", ("dispatcherPtr->startTimer(mTimerHandlerId, timerID, intervalMs, isSingleShot);", "dispatcherPtr->startTimer(mTimerHandlerId, timerID, intervalMs, true);"))
m("t20_api_start_handler", "P20", ("dispatcherPtr->startTimer(mTimerHandlerId, timerID, intervalMs, isSingleShot);", "dispatcherPtr->startTimer(mEventsHandlerId, timerID, intervalMs, isSingleShot);"))
m("t20_api_restart_stop", "P20", ("    if (dispatcherPtr) {\n        dispatcherPtr->restartTimer(timerID);", "    if (dispatcherPtr) {\n        dispatcherPtr->stopTimer(timerID);"))
m("t20_api_restart_both", "P20", ("    if (dispatcherPtr) {\n        dispatcherPtr->restartTimer(timerID);", "    if (dispatcherPtr && dispatcherPtr->isTimerRunning(timerID)) {\n        dispatcherPtr->restartTimer(timerID);"))
m("t20_api_running", "P20", ("        running = dispatcherPtr->isTimerRunning(timerID);", "        running = true;\n        (void)dispatcherPtr->isTimerRunning(timerID);"))
m("t20_no_check", "P20", ("    if (dispatcherPtr) {\n        dispatcherPtr->stopTimer(timerID);\n    }", "    dispatcherPtr->stopTimer(timerID);"))
r("r_20_switch", ("            if (StateAction::START_TIMER == actionInfo.action) {\n", "            switch (actionInfo.action) {\n            case StateAction::START_TIMER:\n"), ("            } else if (StateAction::STOP_TIMER == actionInfo.action) {\n", "                break;\n            case StateAction::STOP_TIMER:\n"),
  ("            } else if (StateAction::RESTART_TIMER == actionInfo.action) {\n", "                break;\n            case StateAction::RESTART_TIMER:\n"), ("            } else if (StateAction::TRANSITION == actionInfo.action) {\n", "                break;\n            case StateAction::TRANSITION: {\n"),
  ("            } else {\n                HSM_TRACE_WARNING(\"unsupported action <%d>\", SC2INT(actionInfo.action));\n            }\n", "                break;\n            }\n            default:\n                break;\n            }\n"))
r("r_20_helper", ("void HierarchicalStateMachine::Impl::executeStateAction(", "static VariantVector_t tailOf(const VariantVector_t& args) {\n    VariantVector_t res;\n\n    for (size_t i = 1; i < args.size(); ++i) {\n        res.push_back(args[i]);\n    }\n\n    return res;\n}\n\nvoid HierarchicalStateMachine::Impl::executeStateAction("),
  ("                VariantVector_t transitionArgs;\n\n                if (actionInfo.actionArgs.size() > 1U) {\n                    transitionArgs.reserve(actionInfo.actionArgs.size() - 1U);\n\n                    // copy arguments except for the first one\n                    for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i) {\n                        transitionArgs.emplace_back(actionInfo.actionArgs[i]);\n                    }\n                }\n", "                VariantVector_t transitionArgs = tailOf(actionInfo.actionArgs);\n"))
r("r_20_range_ctor", ("                VariantVector_t transitionArgs;\n\n                if (actionInfo.actionArgs.size() > 1U) {\n                    transitionArgs.reserve(actionInfo.actionArgs.size() - 1U);\n\n                    // copy arguments except for the first one\n                    for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i) {\n                        transitionArgs.emplace_back(actionInfo.actionArgs[i]);\n                    }\n                }\n", "                VariantVector_t transitionArgs(actionInfo.actionArgs.begin() + 1, actionInfo.actionArgs.end());\n"))
r("r_20_iter_args", ("                    for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i) {\n                        transitionArgs.emplace_back(actionInfo.actionArgs[i]);\n                    }\n", "                    for (auto itArg = std::next(actionInfo.actionArgs.begin()); itArg != actionInfo.actionArgs.end(); ++itArg) {\n                        transitionArgs.emplace_back(*itArg);\n                    }\n"))
r("r_20_insert_args", ("                    for (size_t i = 1; i < actionInfo.actionArgs.size(); ++i) {\n                        transitionArgs.emplace_back(actionInfo.actionArgs[i]);\n                    }\n", "                    transitionArgs.insert(transitionArgs.end(), actionInfo.actionArgs.begin() + 1, actionInfo.actionArgs.end());\n"))
r("r_20_timer_id_local", ("                dispatcherPtr->stopTimer(static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64()));", "                const TimerID_t timerToStop = static_cast<TimerID_t>(actionInfo.actionArgs[0].toInt64());\n                dispatcherPtr->stopTimer(timerToStop);"))
r("r_20_accept_return", ("    if (true == res) {\n        executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);\n    }\n\n    return res;", "    if (!res) {\n        return false;\n    }\n\n    executeStateAction(state, StateActionTrigger::ON_STATE_EXIT);\n    return true;"))
r("r_20_enter_return", ("    if (false == isStateActive(state)) {\n        auto it = mRegisteredStates.find(state);\n\n        if ((mRegisteredStates.end() != it) && it->second.onEntering) {", "    if (isStateActive(state)) {\n        return true;\n    }\n\n    {\n        auto it = mRegisteredStates.find(state);\n\n        if ((mRegisteredStates.end() != it) && it->second.onEntering) {"))
r("r_20_reg_ifs", ("    if (true == argsValid) {\n        newAction.action = action;\n        (void)mRegisteredActions.emplace(std::make_pair(state, actionTrigger), newAction);\n        result = true;\n    } else {\n        HSM_TRACE_ERROR(\"invalid arguments\");\n    }\n\n    return result;", "    if (!argsValid) {\n        return false;\n    }\n\n    newAction.action = action;\n    mRegisteredActions.insert(std::make_pair(std::make_pair(state, actionTrigger), newAction));\n    (void)result;\n    return true;"))
r("r_20_reg_args_const", ("            argsValid = (newAction.actionArgs.size() == 3U) && newAction.actionArgs[0].isNumeric() &&\n                        newAction.actionArgs[1].isNumeric() && newAction.actionArgs[2].isBool();", "            argsValid = (args.size() == 3U) && args[2].isBool() && args.at(0).isNumeric() && args[1].isNumeric();"))
r("r_20_reg_helper", ("bool HierarchicalStateMachine::Impl::registerStateAction(", "static bool isTimerId(const VariantVector_t& args) {\n    return (false == args.empty()) && args.front().isNumeric();\n}\n\nbool HierarchicalStateMachine::Impl::registerStateAction("),
  ("            argsValid = (newAction.actionArgs.size() == 1U) && newAction.actionArgs[0].isNumeric();", "            argsValid = (newAction.actionArgs.size() == 1U) && isTimerId(newAction.actionArgs);"))
r("r_20_reg_record", ("    newAction.actionArgs = args;\n", ""), ("        newAction.action = action;\n        (void)mRegisteredActions", "        newAction = StateActionInfo{action, args};\n        (void)mRegisteredActions"), ("newAction.actionArgs.size() == 3U) && newAction.actionArgs[0].isNumeric() &&\n                        newAction.actionArgs[1].isNumeric() && newAction.actionArgs[2].isBool()", "args.size() == 3U) && args[0].isNumeric() &&\n                        args[1].isNumeric() && args[2].isBool()"),
  ("(newAction.actionArgs.size() == 1U) && newAction.actionArgs[0].isNumeric()", "(args.size() == 1U) && args[0].isNumeric()"), ("(false == newAction.actionArgs.empty()) && newAction.actionArgs[0].isNumeric()", "(false == args.empty()) && args[0].isNumeric()"))
r("r_20_timer_count", ("    auto it = mTimers.find(id);\n\n    if (mTimers.end() != it) {\n        transitionSimple(it->second);\n    }", "    if (mTimers.count(id) > 0) {\n        transitionSimple(mTimers.at(id));\n    }"))
r("r_20_timer_array", ("        transitionSimple(it->second);", "        transitionWithArgsArray(it->second, VariantVector_t());"))
r("r_20_api_return", ("    if (dispatcherPtr) {\n        running = dispatcherPtr->isTimerRunning(timerID);\n    }\n\n    return running;", "    if (!dispatcherPtr) {\n        return running;\n    }\n\n    return dispatcherPtr->isTimerRunning(timerID);"))
r("r_20_no_disp_first", ("    auto itRange = mRegisteredActions.equal_range(std::make_pair(state, actionTrigger));\n\n    // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator\n    if (dispatcherPtr && (itRange.first != itRange.second)) {", "    if (!dispatcherPtr) {\n        return;\n    }\n    const auto actionsKey = std::make_pair(state, actionTrigger);\n    auto itRange = mRegisteredActions.equal_range(actionsKey);\n\n    if (itRange.first != itRange.second) {"))

# ---- P21 registrations and operations
HH = "include/hsmcpp/hsm.hpp"
HC = "src/hsm.cpp"
TC = "src/HsmImplTypes.cpp"
RS = "    mRegisteredStates[state] =\n        std::move(StateCallbacks(std::move(onStateChanged), std::move(onEntering), std::move(onExiting)));"
m("t21_state_first_wins", "P21", (RS, "    (void)mRegisteredStates.emplace(state, StateCallbacks(std::move(onStateChanged), std::move(onEntering), std::move(onExiting)));"))
m("t21_state_null_cb", "P21", (RS, "    if (onStateChanged || onEntering) {\n    mRegisteredStates[state] =\n        std::move(StateCallbacks(std::move(onStateChanged), std::move(onEntering), std::move(onExiting)));\n    }"))
m("t21_state_move_swap", "P21", (TC, "onExiting = std::move(src.onExiting);", "onExiting = nullptr;"))
m("t21_final_event", "P21", ("    mFinalStates[state] = event;", "    (void)mFinalStates.emplace(state, event);"))
m("t21_final_no_state", "P21", (HC, "mImpl->registerFinalState(state, event, std::move(onStateChanged), std::move(onEntering), std::move(onExiting));", "mImpl->registerFinalState(state, event, std::move(onStateChanged), nullptr, std::move(onExiting));"))
m("t21_template_exit", "P21", (HH, "    registerState(state, funcStateChanged, funcEntering, funcExiting);", "    registerState(state, funcStateChanged, funcEntering, HsmStateExitCallback_t());"))
m("t21_template_chain", "P21", (HH, "        if (nullptr != onEntering) {\n            funcEntering = std::bind(onEntering, handler, std::placeholders::_1);\n        }\n\n        if (nullptr != onExiting) {\n            funcExiting = std::bind(onExiting, handler);\n        }\n    }\n\n    registerState(",
  "        if (nullptr != onEntering) {\n            funcEntering = std::bind(onEntering, handler, std::placeholders::_1);\n\n        if (nullptr != onExiting) {\n            funcExiting = std::bind(onExiting, handler);\n        }\n        }\n    }\n\n    registerState("))
m("t21_template_cond", "P21", (HH, "    registerTransition(fromState, toState, onEvent, funcTransitionCallback, funcConditionCallback, expectedConditionValue);", "    registerTransition(fromState, toState, onEvent, funcTransitionCallback, funcConditionCallback);"))
m("t21_hist_deep", "P21", ("std::move(HistoryInfo(type, defaultTarget, std::move(transitionCallback)));", "std::move(HistoryInfo(HistoryType::SHALLOW, defaultTarget, std::move(transitionCallback)));"))
m("t21_hist_key", "P21", ("    (void)mHistoryStates.emplace(parent, historyState);", "    (void)mHistoryStates.emplace(historyState, parent);"))
m("t21_hist_move_cb", "P21", (TC, "        defaultTargetTransitionCallback = std::move(src.defaultTargetTransitionCallback);\n", ""))
m("t21_hist_ctor_target", "P21", (TC, "    , defaultTarget(newDefaultTarget)\n", "    , defaultTarget(INVALID_HSM_STATE_ID)\n"))
m("t21_timer_first", "P21", ("    mTimers[timerID] = event;", "    (void)mTimers.insert(std::make_pair(timerID, event));"))
m("t21_timer_swap", "P21", ("    mTimers[timerID] = event;", "    mTimers[event] = timerID;"))
m("t21_tr_expected", "P21", ("                                                     TransitionType::EXTERNAL_TRANSITION,\n                                                     std::move(transitionCallback),\n                                                     std::move(conditionCallback),\n                                                     expectedConditionValue));", "                                                     TransitionType::EXTERNAL_TRANSITION,\n                                                     std::move(transitionCallback),\n                                                     std::move(conditionCallback)));"))
m("t21_tr_internal", "P21", ("                                                     TransitionType::EXTERNAL_TRANSITION,", "                                                     (fromState == toState) ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION,"))
m("t21_tr_dup", "P21", ("    (void)mTransitionsByEvent.emplace(std::make_pair(fromState, onEvent),", "    if (mTransitionsByEvent.find(std::make_pair(fromState, onEvent)) == mTransitionsByEvent.end())\n    (void)mTransitionsByEvent.emplace(std::make_pair(fromState, onEvent),"))
m("t21_tr_ctor", "P21", (TC, "    , checkCondition(std::move(cbCondition))\n    , expectedConditionValue(conditionValue) {}", "    , checkCondition(std::move(cbCondition)) {\n    (void)conditionValue;\n}"))
m("t21_self_type", "P21", (HC, "    mImpl->registerSelfTransition(state,\n                                  onEvent,\n                                  type,", "    mImpl->registerSelfTransition(state,\n                                  onEvent,\n                                  TransitionType::EXTERNAL_TRANSITION,"))
m("t21_self_key", "P21", ("    (void)mTransitionsByEvent.emplace(std::make_pair(state, onEvent),", "    (void)mTransitionsByEvent.emplace(std::make_pair(onEvent, state),"))
m("t21_entry_expected", "P21", ("            entryInfo.expectedConditionValue = expectedConditionValue;\n", ""))
m("t21_entry_no_sub", "P21", ("        (void)mSubstates.emplace(parent, substate);\n", "        if (!isEntryPoint) {\n            (void)mSubstates.emplace(parent, substate);\n        }\n"))
m("t21_entry_event", "P21", (HC, "mImpl->registerSubstateEntryPoint(parent, substate, onEvent, std::move(conditionCallback), expectedConditionValue)", "mImpl->registerSubstateEntryPoint(parent, substate, INVALID_HSM_EVENT_ID, std::move(conditionCallback), expectedConditionValue)"))
m("t21_sub_cycle_one", "P21", ("            while (true == hasParentState(curState, prevState)) {", "            if (true == hasParentState(curState, prevState)) {"), ("                    registrationAllowed = false;\n                    break;\n                }\n\n                curState = prevState;", "                    registrationAllowed = false;\n                }\n\n                curState = prevState;"))
m("t21_sub_cycle_cmp", "P21", ("                if (substate == prevState) {", "                if (parent == prevState) {"))
m("t21_sub_second_parent", "P21", ("        if (false == hasParentState(substate, prevState)) {", "        if ((false == hasParentState(substate, prevState)) || (prevState == parent)) {"))
m("t21_sub_self", "P21", ("    if (parent != substate) {\n        StateID_t curState", "    if ((parent != substate) || isEntryPoint) {\n        StateID_t curState"))
m("t21_sub_result", "P21", ("#endif  // HSM_ENABLE_SAFE_STRUCTURE\n    }\n\n    return registrationAllowed;", "#endif  // HSM_ENABLE_SAFE_STRUCTURE\n    }\n\n    return (parent != substate);"))
m("t21_parent_first", "P21", ("        if (state == curSubstate.second) {\n            hasParent = true;", "        if (state == curSubstate.first) {\n            hasParent = true;"))
m("t21_parent_out", "P21", ("        outParent = it->first;", "        outParent = it->second;"))
m("t21_failed_drop", "P21", ("    mFailedTransitionCallback = std::move(onFailedTransition);", "    if (!mFailedTransitionCallback) {\n        mFailedTransitionCallback = std::move(onFailedTransition);\n    }"))
m("t21_failed_ph", "P21", (HH, "std::bind(onFailedTransition, handler, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3)", "std::bind(onFailedTransition, handler, std::placeholders::_1, std::placeholders::_2, std::placeholders::_2)") if False else
  (HH, "    registerFailedTransitionCallback(std::bind(onFailedTransition, handler, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3));", "    (void)handler;\n    (void)onFailedTransition;\n    registerFailedTransitionCallback(HsmTransitionFailedCallback_t());"))
m("t21_last_front", "P21", ("        currentState = mActiveStates.back();", "        currentState = mActiveStates.front();"))
m("t21_active_not", "P21", ("    return (std::find(mActiveStates.begin(), mActiveStates.end(), state) != mActiveStates.end());", "    return (mActiveStates.empty() == false) && (mActiveStates.back() == state);"))
m("t21_active_skip", "P21", ("    return (std::find(mActiveStates.begin(), mActiveStates.end(), state) != mActiveStates.end());", "    for (auto it = mActiveStates.begin(); it != mActiveStates.end(); ++it) {\n        if (*it == state) {\n            return true;\n        }\n        ++it;\n        if (it == mActiveStates.end()) {\n            break;\n        }\n    }\n    return false;"))
m("t21_sync_async", "P21", (HH, "    return transitionEx(event, false, true, timeoutMs, std::forward<Args>(args)...);", "    return transitionEx(event, false, (timeoutMs > 0), timeoutMs, std::forward<Args>(args)...);"))
m("t21_clear_not", "P21", (HH, "    (void)transitionEx(event, true, false, 0, std::forward<Args>(args)...);", "    (void)transitionEx(event, false, false, 0, std::forward<Args>(args)...);"))
m("t21_no_args", "P21", (HH, "    makeVariantList(eventArgs, std::forward<Args>(args)...);\n\n    return isTransitionPossibleImpl(event, eventArgs);", "    return isTransitionPossibleImpl(event, eventArgs);"))
m("t21_args_array_result", "P21", (HC, "    return mImpl->transitionExWithArgsArray(event, clearQueue, sync, timeoutMs, std::move(args));", "    (void)mImpl->transitionExWithArgsArray(event, clearQueue, sync, timeoutMs, std::move(args));\n    return true;"))
m("t21_args_array_order", "P21", (HC, "    return mImpl->transitionExWithArgsArray(event, clearQueue, sync, timeoutMs, std::move(args));", "    return mImpl->transitionExWithArgsArray(event, sync, clearQueue, timeoutMs, std::move(args));"))
m("t21_isr_result", "P21", (HC, "    return mImpl->transitionInterruptSafe(event);", "    return mImpl->transitionInterruptSafe(event) || true;"))
m("t21_initial", "P21", ("    , mInitialState(initialState)", "    , mInitialState(0)") if False else (HC, "mImpl->setInitialState(initialState);", "(void)initialState;"))
r("r_21_insert_or", (RS, "    StateCallbacks callbacks(std::move(onStateChanged), std::move(onEntering), std::move(onExiting));\n    auto it = mRegisteredStates.find(state);\n\n    if (it != mRegisteredStates.end()) {\n        it->second = std::move(callbacks);\n    } else {\n        (void)mRegisteredStates.emplace(state, std::move(callbacks));\n    }"))
r("r_21_fields", (RS, "    StateCallbacks& entry = mRegisteredStates[state];\n\n    entry.onStateChanged = std::move(onStateChanged);\n    entry.onEntering = std::move(onEntering);\n    entry.onExiting = std::move(onExiting);"))
r("r_21_erase", (RS, "    (void)mRegisteredStates.erase(state);\n    (void)mRegisteredStates.emplace(state, StateCallbacks(std::move(onStateChanged), std::move(onEntering), std::move(onExiting)));"))
r("r_21_final_order", ("    mFinalStates[state] = event;\n    registerState(state, std::move(onStateChanged), std::move(onEntering), std::move(onExiting));", "    registerState(state, std::move(onStateChanged), std::move(onEntering), std::move(onExiting));\n    mFinalStates[state] = event;"))
r("r_21_make_pair", ("    (void)mHistoryStates.emplace(parent, historyState);", "    (void)mHistoryStates.insert(std::make_pair(parent, historyState));"))
r("r_21_self_by_tr", ("    (void)mTransitionsByEvent.emplace(std::make_pair(state, onEvent),\n                                      TransitionInfo(state,\n                                                     state,\n                                                     type,\n                                                     std::move(transitionCallback),\n                                                     std::move(conditionCallback),\n                                                     expectedConditionValue));",
  "    TransitionInfo info(state, state, type, std::move(transitionCallback), std::move(conditionCallback), expectedConditionValue);\n    const std::pair<StateID_t, EventID_t> key(state, onEvent);\n\n    (void)mTransitionsByEvent.emplace(key, info);"))
r("r_21_lambda_bind", (HH, "        if (nullptr != transitionCallback) {\n            funcTransitionCallback = std::bind(transitionCallback, handler, std::placeholders::_1);\n        }\n    }\n\n    registerHistory(", "        if (nullptr != transitionCallback) {\n            funcTransitionCallback = [handler, transitionCallback](const VariantVector_t& args) { (handler->*transitionCallback)(args); };\n        }\n    }\n\n    registerHistory("))
r("r_21_nested_if", (HH, "    if ((nullptr != handler) && (nullptr != conditionCallback)) {\n        condition = std::bind(conditionCallback, handler, std::placeholders::_1);\n    }", "    if (handler) {\n        if (conditionCallback) {\n            condition = std::bind(conditionCallback, handler, std::placeholders::_1);\n        }\n    }"))
r("r_21_move_final", (HH, "    registerFinalState(state, event, funcStateChanged, funcEntering, funcExiting);", "    registerFinalState(state, event, std::move(funcStateChanged), std::move(funcEntering), std::move(funcExiting));"))
r("r_21_sub_early", ("    if (registrationAllowed) {\n        // NOTE: false-positive. isEntryPoint", "    if (!registrationAllowed) {\n        return false;\n    }\n\n    {\n        // NOTE: false-positive. isEntryPoint"))
r("r_21_sub_loop", ("            while (true == hasParentState(curState, prevState)) {\n                if (substate == prevState) {", "            while (registrationAllowed && hasParentState(curState, prevState)) {\n                if (prevState == substate) {"), ("                    registrationAllowed = false;\n                    break;\n                }\n\n                curState = prevState;", "                    registrationAllowed = false;\n                }\n\n                curState = prevState;"))
r("r_21_sub_for", ("            while (true == hasParentState(curState, prevState)) {", "            for (; hasParentState(curState, prevState); curState = prevState) {"), ("                    registrationAllowed = false;\n                    break;\n                }\n\n                curState = prevState;\n", "                    registrationAllowed = false;\n                    break;\n                }\n"))
r("r_21_lookup_return", ("    bool hasParent = false;\n\n    for (const auto& curSubstate : mSubstates) {\n        if (state == curSubstate.second) {\n            hasParent = true;\n            outParent = curSubstate.first;  // cppcheck-suppress misra-c2012-17.8 ; outParent is used to return result\n            break;\n        }\n    }\n\n    return hasParent;", "    for (auto it = mSubstates.begin(); it != mSubstates.end(); ++it) {\n        if (it->second == state) {\n            outParent = it->first;\n            return true;\n        }\n    }\n\n    return false;"))
r("r_21_lookup_any", ("    bool result = false;\n\n    for (const auto& curSubstate : mSubstates) {\n        if (curSubstate.second == state) {\n            result = true;\n            break;\n        }\n    }\n\n    return result;\n}\n\nbool HierarchicalStateMachine::Impl::hasParentState", "    return std::any_of(mSubstates.begin(), mSubstates.end(), [state](const std::pair<const StateID_t, StateID_t>& item) {\n        return (item.second == state);\n    });\n}\n\nbool HierarchicalStateMachine::Impl::hasParentState"))
r("r_21_last_ret", ("    StateID_t currentState = INVALID_HSM_STATE_ID;\n\n    if (false == mActiveStates.empty()) {\n        currentState = mActiveStates.back();\n    }\n\n    return currentState;", "    return mActiveStates.empty() ? INVALID_HSM_STATE_ID : *mActiveStates.rbegin();"))
r("r_21_active_loop", ("    return (std::find(mActiveStates.begin(), mActiveStates.end(), state) != mActiveStates.end());", "    for (const StateID_t activeState : mActiveStates) {\n        if (activeState == state) {\n            return true;\n        }\n    }\n\n    return false;"))
r("r_21_active_any", ("    return (std::find(mActiveStates.begin(), mActiveStates.end(), state) != mActiveStates.end());", "    return std::any_of(mActiveStates.cbegin(), mActiveStates.cend(), [&](const StateID_t cur) { return cur == state; });"))
r("r_21_variant_list", (HH, "    volatile int make_variant[] = {0, (vList.emplace_back(std::forward<Args>(args)), 0)...};\n    (void)make_variant;", "    vList.reserve(sizeof...(Args));\n    const int make_variant[] = {0, (vList.push_back(Variant(std::forward<Args>(args))), 0)...};\n    (void)make_variant;"))
r("r_21_sync_local", (HH, "    return transitionEx(event, false, true, timeoutMs, std::forward<Args>(args)...);", "    const bool processed = transitionEx(event, false, true, timeoutMs, std::forward<Args>(args)...);\n\n    return processed;"))

# ---- P27 arguments of events
m("t27_entry_reset", "P27", ("                    entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;\n\n                    {", "                    entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;\n                    entryPointTransitionEvent.args.reset();\n\n                    {"))
m("t27_final_noargs", "P27", ("                finalStateEvent.args = event.args;\n", ""))
m("t27_final_own_only", "P27", ("                finalStateEvent.args = event.args;\n", "                if (INVALID_HSM_EVENT_ID == itFinalStateEvent->second) {\n                    finalStateEvent.args = event.args;\n                }\n"))
m("t27_history_reset", "P27", ("                historyTransitionEvent.ignoreEntryPoints = true;\n            } else {", "                historyTransitionEvent.ignoreEntryPoints = true;\n                historyTransitionEvent.args.reset();\n            } else {"))
m("t27_default_history", "P27", ("            cbTransition = defaultTargetTransitionCallback;\n", "            cbTransition = defaultTargetTransitionCallback;\n            defHistoryTransitionEvent.args = std::make_shared<VariantVector_t>();\n"))
m("t27_changed_empty", "P27", ("            onStateChanged(curTransition.destinationState, event.getArgs());", "            onStateChanged(curTransition.destinationState, VariantVector_t());"))
m("t27_enter_empty_forced", "P27", ("    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {", "    if (true == onStateEntering(curTransition.destinationState, (TransitionBehavior::FORCED == event.transitionType) ? VariantVector_t() : event.getArgs())) {"))
m("t27_self_empty", "P27", ("                curTransition.onTransition(event.getArgs());", "                curTransition.onTransition(VariantVector_t());"))
m("t27_failed_empty", "P27", ("        mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());", "        mFailedTransitionCallback(activeStatesSnapshot, event.id, VariantVector_t());"))
m("t27_move_assign", "P27", (TC, "        args = std::move(src.args);\n", ""))
m("t27_move_assign_sync", "P27", (TC, "        args = std::move(src.args);\n", "        if (false == src.isSync()) {\n            args = std::move(src.args);\n        }\n"))
m("t27_accessor", "P27", (TC, "    return (args ? *args : empty);", "    return ((args && (false == cvLock.unique())) ? *args : empty);"))
m("t27_post_sync", "P27", ("        if (true == sync) {\n            eventInfo.initLock();\n        }\n", "        if (true == sync) {\n            eventInfo = PendingEventInfo();\n            eventInfo.id = event;\n            eventInfo.initLock();\n        }\n"))
m("t27_post_empty", "P27", ("        eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));", "        if (false == clearQueue) {\n            eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));\n        }"))
m("t27_dispatch_reset", "P27", ("                    HsmEventStatus transitiontStatus = doTransition(pendingEvent);", "                    if (TransitionBehavior::REGULAR != pendingEvent.transitionType) {\n                        pendingEvent.args.reset();\n                    }\n\n                    HsmEventStatus transitiontStatus = doTransition(pendingEvent);"))
r("r_27_local_args", ("    if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {", "    const VariantVector_t& eventArgs = event.getArgs();\n\n    if (true == onStateEntering(curTransition.destinationState, eventArgs)) {"), ("            onStateChanged(curTransition.destinationState, event.getArgs());", "            onStateChanged(curTransition.destinationState, eventArgs);"))
r("r_27_copy_args", ("            onStateChanged(curTransition.destinationState, event.getArgs());", "            const VariantVector_t eventArgs(event.getArgs());\n\n            onStateChanged(curTransition.destinationState, eventArgs);"))
r("r_27_accessor_if", (TC, "    return (args ? *args : empty);", "    if (nullptr != args) {\n        return *args;\n    }\n\n    return empty;"))
r("r_27_accessor_get", (TC, "    return (args ? *args : empty);", "    const VariantVector_t* stored = args.get();\n\n    return (nullptr != stored) ? *stored : empty;"))
r("r_27_swap", (TC, "        args = std::move(src.args);\n", "        args.swap(src.args);\n"))
r("r_27_move_post", ("                mPendingEvents.emplace_back(eventInfo);", "                mPendingEvents.push_back(PendingEventInfo(eventInfo));"))
r("r_27_shared_local", ("        eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));", "        std::shared_ptr<VariantVector_t> eventArgs = std::make_shared<VariantVector_t>();\n\n        *eventArgs = std::move(args);\n        eventInfo.args = eventArgs;"))
r("r_27_new", ("        eventInfo.args = std::make_shared<VariantVector_t>(std::move(args));", "        eventInfo.args.reset(new VariantVector_t(std::move(args)));"))
r("r_27_entry_helper", ("                    PendingEventInfo entryPointTransitionEvent = event;\n", "                    PendingEventInfo entryPointTransitionEvent(event);\n"), ("                        mPendingEvents.push_front(entryPointTransitionEvent);\n                    }\n                    res = HsmEventStatus::PENDING;", "                        mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));\n                    }\n                    res = HsmEventStatus::PENDING;"))
r("r_27_final_init", ("                PendingEventInfo finalStateEvent;\n\n                finalStateEvent.transitionType = TransitionBehavior::REGULAR;\n                finalStateEvent.args = event.args;\n", "                PendingEventInfo finalStateEvent;\n                const auto& eventArgs = event.args;\n\n                finalStateEvent.transitionType = TransitionBehavior::REGULAR;\n                finalStateEvent.args = eventArgs;\n"))
r("r_27_failed_deref", ("        mFailedTransitionCallback(activeStatesSnapshot, event.id, event.getArgs());", "        const VariantVector_t& failedArgs = (event.args != nullptr) ? *event.args : VariantVector_t();\n\n        mFailedTransitionCallback(activeStatesSnapshot, event.id, failedArgs);"))

# ---- P28 Variant
VC, VH = "src/variant.cpp", "include/hsmcpp/variant.hpp"
m("t28_ctor_tag", "P28", (VC, "IMPL_CONSTRUCTOR(uint16_t, Type::UBYTE_2)", "IMPL_CONSTRUCTOR(uint16_t, Type::UBYTE_4)"))
m("t28_assign_tag", "P28", (VC, "IMPL_OPERATOR_ASSIGN(uint64_t, Type::UBYTE_8)", "IMPL_OPERATOR_ASSIGN(uint64_t, Type::BYTE_8)"))
m("t28_list_tag", "P28", (VH, "    type = Type::LIST;\n", "    type = Type::VECTOR;\n"))
m("t28_map_alloc", "P28", (VH, "    type = Type::MAP;\n    createMemoryAllocator<VariantMap_t>();", "    type = Type::MAP;\n    createMemoryAllocator<VariantPair_t>();"))
m("t28_list_deleter", "P28", (VH, "new VariantList_t(), [](void* ptr) { delete reinterpret_cast<VariantList_t*>(ptr); });", "new VariantList_t(), [](void* ptr) { delete reinterpret_cast<VariantVector_t*>(ptr); });"))
m("t28_read_small", "P28", (VC, "            result = static_cast<double>(*value<uint16_t>());", "            result = static_cast<double>(*value<uint32_t>());"))
m("t28_bool_read", "P28", (VC, "            result = static_cast<int64_t>(*value<bool>());\n            break;\n\n        case Type::STRING:\n            HSM_TRY {\n                result = std::stoll", "            result = static_cast<int64_t>(*value<int32_t>());\n            break;\n\n        case Type::STRING:\n            HSM_TRY {\n                result = std::stoll"))
m("t28_get_map_guard", "P28", (VC, "    if (true == isMap()) {\n        result = value<VariantMap_t>();", "    if (false == isEmpty()) {\n        result = value<VariantMap_t>();"))
m("t28_custom_guard", "P28", (VH, "    if (true == isCustomType()) {\n        result = value<T>();", "    if (data) {\n        result = value<T>();"))
m("t28_copy_shares", "P28", (VC, "            data = v.memoryAllocator(v.data.get());", "            data = (v.isCustomType() ? v.data : v.memoryAllocator(v.data.get()));"))
m("t28_copy_keeps_alloc", "P28", (VC, "            memoryAllocator = v.memoryAllocator;\n            compareOperator", "            if (type != v.type) { memoryAllocator = v.memoryAllocator; }\n            compareOperator"))
m("t28_copy_compare", "P28", (VC, "            compareOperator = v.compareOperator;\n        } else {", "            if (nullptr == compareOperator) { compareOperator = v.compareOperator; }\n        } else {"))
m("t28_copy_empty", "P28", (VC, "        } else {\n            freeMemory();\n        }\n    }\n\n    return *this;\n}\n\nVariant& Variant::operator=(Variant&&", "        }\n    }\n\n    return *this;\n}\n\nVariant& Variant::operator=(Variant&&"))
m("t28_move_type_left", "P28", (VC, "        v.type = Type::UNKNOWN;\n        v.compareOperator = nullptr;", "        v.compareOperator = nullptr;"))
m("t28_free_type", "P28", (VC, "    data.reset();\n    type = Type::UNKNOWN;\n", "    data.reset();\n"))
m("t28_eq_type", "P28", (VC, "            } else if ((val.type == type) && (val.compareOperator == compareOperator)) {", "            } else if (val.type == type) {"))
m("t28_gt_type", "P28", (VC, "        } else if ((type == val.type) && (compareOperator == val.compareOperator)) {", "        } else if (type == val.type) {"))
m("t28_gt_equal", "P28", (VC, "            isGreater = (1 == compareOperator(data.get(), val.data.get()));", "            isGreater = (-1 != compareOperator(data.get(), val.data.get()));"))
m("t28_gt_swapped", "P28", (VC, "            isGreater = (1 == compareOperator(data.get(), val.data.get()));", "            isGreater = (1 == compareOperator(val.data.get(), data.get()));"))
r("r_28_ge", (VC, "    return (*this == val) || (*this > val);", "    return !(*this < val);"))
m("t28_is_unsigned", "P28", (VC, "        case Type::UBYTE_4:\n        case Type::UBYTE_8:\n            isUnsigned = true;", "        case Type::UBYTE_4:\n            isUnsigned = true;"))
m("t28_numeric_bool", "P28", (VC, "        case Type::DOUBLE:\n            numeric = true;\n            break;\n\n        case Type::BOOL:\n", "        case Type::DOUBLE:\n        case Type::BOOL:\n            numeric = true;\n            break;\n\n"))
m("t28_bytes_wide", "P28", (VC, "        case Type::BYTE_2:\n        case Type::UBYTE_2:\n            result.resize(sizeof(int16_t));\n            static_cast<void>(memcpy(result.data(), data.get(), sizeof(int16_t)));", "        case Type::BYTE_2:\n        case Type::UBYTE_2:\n            result.resize(sizeof(int32_t));\n            static_cast<void>(memcpy(result.data(), data.get(), sizeof(int32_t)));"))
m("t28_alloc_no_copy", "P28", (VH, "(std::shared_ptr<void>(new T(*reinterpret_cast<const T*>(ptr)),\n                                                          [](void* ptr) { delete reinterpret_cast<const T*>(ptr); }))", "(std::shared_ptr<void>(const_cast<void*>(ptr), [](void*) {}))"))
m("t28_assign_no_keep", "P28", (VH, "    const std::shared_ptr<void> previousData = data;\n\n    freeMemory();", "    freeMemory();"))
m("t28_cmp_other", "P28", (VH, "        } else if (*reinterpret_cast<const T*>(left) > *reinterpret_cast<const T*>(right)) {\n            res = 1;", "        } else if (*reinterpret_cast<const T*>(right) > *reinterpret_cast<const T*>(left)) {\n            res = 1;"))
m("t28_string_literal", "P28", (VC, "    assign(std::string(v), Type::STRING);", "    assign(v, Type::STRING);"))
m("t28_to_pair_guard", "P28", (VH, "    if (isPair()) {\n        std::shared_ptr<VariantPair_t> pairData = getPair();", "    if (isPair() || isVector()) {\n        std::shared_ptr<VariantPair_t> pairData = value<VariantPair_t>();"))
m("t28_eq_double", "P28", (VC, "                if ((Type::DOUBLE == type) || (Type::DOUBLE == val.type)) {\n                    // compare", "                if ((Type::DOUBLE == type) && (Type::DOUBLE == val.type)) {\n                    // compare"))
m("t28_gt_unsigned", "P28", (VC, "            } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {\n                isGreater = toUInt64() > val.toUInt64();", "            } else if (isUnsignedNumeric() || val.isUnsignedNumeric()) {\n                isGreater = toUInt64() >= val.toUInt64();"))
r("r_28_free_inline", (VC, "void Variant::clear() {\n    freeMemory();\n}", "void Variant::clear() {\n    data = nullptr;\n    type = Type::UNKNOWN;\n    memoryAllocator = nullptr;\n    compareOperator = nullptr;\n}"))
r("r_28_copy_tmp", (VC, "            data = v.memoryAllocator(v.data.get());\n            type = v.type;\n", "            const Type newType = v.type;\n            std::shared_ptr<void> newData = v.memoryAllocator(v.data.get());\n\n            data = std::move(newData);\n            type = newType;\n"))
r("r_28_alloc_if", (VH, "        return ((nullptr != ptr) ? (std::shared_ptr<void>(new T(*reinterpret_cast<const T*>(ptr)),\n                                                          [](void* ptr) { delete reinterpret_cast<const T*>(ptr); }))\n                                 : nullptr);", "        std::shared_ptr<void> copy;\n\n        if (nullptr != ptr) {\n            copy = std::make_shared<T>(*static_cast<const T*>(ptr));\n        }\n\n        return copy;"))
r("r_28_make_shared", (VH, "    std::shared_ptr<VariantMap_t> dest =\n        std::shared_ptr<VariantMap_t>(new VariantMap_t(), [](void* ptr) { delete reinterpret_cast<VariantMap_t*>(ptr); });", "    std::shared_ptr<VariantMap_t> dest = std::make_shared<VariantMap_t>();"))
r("r_28_switch_if", (VC, "    bool isUnsigned = false;\n\n    switch (type) {\n        case Type::UBYTE_1:\n        case Type::UBYTE_2:\n        case Type::UBYTE_4:\n        case Type::UBYTE_8:\n            isUnsigned = true;\n            break;\n\n        default:\n            isUnsigned = false;\n            break;\n    }\n\n    return isUnsigned;", "    return (Type::UBYTE_1 == type) || (Type::UBYTE_2 == type) || (Type::UBYTE_4 == type) || (Type::UBYTE_8 == type);"))
r("r_28_cmp_local", (VH, "        int res = -1;\n        if (*reinterpret_cast<const T*>(left) == *reinterpret_cast<const T*>(right)) {\n            res = 0;\n        } else if (*reinterpret_cast<const T*>(left) > *reinterpret_cast<const T*>(right)) {\n            res = 1;\n        } else {\n            // do nothing\n        }\n", "        const T& leftValue = *reinterpret_cast<const T*>(left);\n        const T& rightValue = *reinterpret_cast<const T*>(right);\n        const int res = (leftValue == rightValue) ? 0 : ((leftValue > rightValue) ? 1 : -1);\n"))
r("r_28_getter_cond", (VC, "    std::shared_ptr<VariantMap_t> result;\n\n    if (true == isMap()) {\n        result = value<VariantMap_t>();\n    }\n\n    return result;", "    return (isMap() ? value<VariantMap_t>() : std::shared_ptr<VariantMap_t>());"))
r("r_28_eq_early", (VC, "    constexpr double comparePrecision = 0.00000001;\n    bool equal = false;\n\n    if (data != val.data) {", "    constexpr double comparePrecision = 0.00000001;\n    bool equal = false;\n\n    if (data == val.data) {\n        return true;\n    }\n\n    if (data != val.data) {"))
r("r_28_move_swap", (VC, "        data = std::move(v.data);\n        type = v.type;\n        memoryAllocator = std::move(v.memoryAllocator);\n        compareOperator = v.compareOperator;\n\n        v.type = Type::UNKNOWN;\n        v.compareOperator = nullptr;", "        data = std::move(v.data);\n        std::swap(type, v.type);\n        memoryAllocator = std::move(v.memoryAllocator);\n        std::swap(compareOperator, v.compareOperator);\n\n        v.clear();"))
r("r_28_tostring_ref", (VC, "            result = *(value<std::string>());\n            break;\n        case Type::BYTEARRAY: {", "            result = *std::static_pointer_cast<std::string>(data);\n            break;\n        case Type::BYTEARRAY: {"))
r("r_28_toint_helper", (VC, "int64_t Variant::toInt64() const {\n    int64_t result = 0;\n\n    switch (type) {", "int64_t Variant::toInt64() const {\n    int64_t result = 0;\n    const Type valueType = getType();\n\n    switch (valueType) {"))
r("r_28_assign_shared", (VH, "    freeMemory();\n    createMemoryAllocator<T>();\n    type = t;\n    data = memoryAllocator(&v);", "    std::shared_ptr<void> newData = std::make_shared<T>(v);\n\n    freeMemory();\n    createMemoryAllocator<T>();\n    data = newData;\n    type = t;"))
r("r_28_rangefor", (VH, "    for (auto it = v.begin(); it != v.end(); ++it) {\n        dest->emplace(it->first, it->second);\n    }", "    for (const auto& item : v) {\n        dest->emplace(item.first, item.second);\n    }"))

# ---- P23
HDR = "    const auto itFinalStateEvent = mFinalStates.find(destinationState);\n"
m("t23_fin_siblings_flag", "P23", (I, "hasActiveChildren(parentState, false)", "hasActiveChildren(parentState, true)"))
m("t23_fin_no_siblings", "P23", (I, "            if (false == hasActiveChildren(parentState, false)) {", "            {"))
m("t23_fin_no_parent", "P23", (I, "        // don't generate events for top level final states since no one can process them\n        if (true == getParentState(destinationState, parentState)) {", "        (void)getParentState(destinationState, parentState);\n        {"))
m("t23_fin_wrong_id", "P23", (I, "                    finalStateEvent.id = itFinalStateEvent->second;", "                    finalStateEvent.id = event.id;"))
m("t23_fin_swap", "P23", (I, "                if (INVALID_HSM_EVENT_ID != itFinalStateEvent->second) {", "                if (INVALID_HSM_EVENT_ID == itFinalStateEvent->second) {"))
m("t23_fin_back", "P23", (I, "                    mPendingEvents.push_front(finalStateEvent);", "                    mPendingEvents.push_back(finalStateEvent);"))
m("t23_fin_no_own", "P23", (I, "                } else {\n                    finalStateEvent.id = event.id;\n                }", "                }"))
m("t23_fin_forced", "P23", (I, "                finalStateEvent.transitionType = TransitionBehavior::REGULAR;", "                finalStateEvent.transitionType = event.transitionType;"))
m("t23_fin_only_registered", "P23", (I, "            if (false == hasActiveChildren(parentState, false)) {", "            if ((false == hasActiveChildren(parentState, false)) && (INVALID_HSM_EVENT_ID != itFinalStateEvent->second)) {"))
m("t23_fin_self_siblings", "P23", (I, "hasActiveChildren(parentState, false)", "hasActiveChildren(destinationState, false)"))
m("t23_act_final_ignored", "P23", (I, "        if ((parent != activeStateId) && (true == includeFinal) || (false == isFinalState(activeStateId))) {", "        if (parent != activeStateId) {"))
m("t23_act_first_only", "P23", (I, "                res = true;\n                break;\n            }\n        }\n    }\n\n    HSM_TRACE_CALL_RESULT(\"res=%d\", BOOL2INT(res));\n    return res;\n}\n\nbool HierarchicalStateMachine::Impl::getHistoryParent", "                res = true;\n            }\n            break;\n        }\n    }\n\n    HSM_TRACE_CALL_RESULT(\"res=%d\", BOOL2INT(res));\n    return res;\n}\n\nbool HierarchicalStateMachine::Impl::getHistoryParent"))
m("t23_act_swapped", "P23", (I, "            if (isSubstateOf(parent, activeStateId)) {\n                HSM_TRACE_DEBUG(\"parent=<%s> has", "            if (isSubstateOf(activeStateId, parent)) {\n                HSM_TRACE_DEBUG(\"parent=<%s> has"))
m("t23_act_sole", "P23", (I, "    for (const StateID_t& activeStateId : mActiveStates) {\n        if ((parent", "    for (const StateID_t& activeStateId : mActiveStates) {\n        if (mActiveStates.back() == activeStateId) {\n            continue;\n        }\n        if ((parent"))
m("t23_hp_swap", "P23", (I, "            return (historyState == item.second);", "            return (historyState == item.first);"))
m("t23_hp_out", "P23", (I, "mHistoryStates.end() != it) {\n        outParent = it->first;", "mHistoryStates.end() != it) {\n        outParent = it->second;"))
m("t23_hist_skip_first", "P23", (I, "        for (const StateID_t prevState : previousActiveStates) {", "        for (const StateID_t prevState : previousActiveStates) {\n            if ((previousActiveStates.size() > 1U) && (prevState == previousActiveStates.back())) {\n                continue;\n            }"))
m("t23_hist_no_ignore", "P23", (I, "            historyTransitionEvent.ignoreEntryPoints = hasStoredSubstates;", "            historyTransitionEvent.ignoreEntryPoints = false;"))
m("t23_hist_all_ignore", "P23", (I, "            historyTransitionEvent.ignoreEntryPoints = hasStoredSubstates;", "            historyTransitionEvent.ignoreEntryPoints = true;"))
m("t23_hist_no_split", "P23", (I, "                ((true == isParentState) || (hasStoredSubstates != historyTransitionEvent.ignoreEntryPoints))) {", "                (true == isParentState)) {"))
m("t23_hist_lost_list", "P23", (I, "                mPendingEvents.push_front(historyTransitionEvent);\n                historyTransitionEvent.forcedTransitionsInfo = ", "                historyTransitionEvent.forcedTransitionsInfo = "))
m("t23_hist_shared_list", "P23", (I, "                mPendingEvents.push_front(historyTransitionEvent);\n                historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();\n            }", "                mPendingEvents.push_front(historyTransitionEvent);\n            }"))
m("t23_hist_last_lost", "P23", (I, "        mPendingEvents.push_front(historyTransitionEvent);\n    }\n\n    previousActiveStates.clear();", "    }\n\n    previousActiveStates.clear();"))
m("t23_hist_parent_entry", "P23", (I, "                                                                   nullptr,\n                                                                   nullptr);\n        historyTransitionEvent.ignoreEntryPoints = true;", "                                                                   nullptr,\n                                                                   nullptr);"))
m("t23_hist_parent_back", "P23", (I, "        HSM_SYNC_EVENTS_QUEUE();\n        mPendingEvents.push_front(historyTransitionEvent);\n    }\n}", "        HSM_SYNC_EVENTS_QUEUE();\n        mPendingEvents.push_back(historyTransitionEvent);\n    }\n}"))
m("t23_hist_no_parent", "P23", (I, "        HSM_SYNC_EVENTS_QUEUE();\n        mPendingEvents.push_front(historyTransitionEvent);\n    }\n}", "    }\n}"))
m("t23_hist_empty_swap", "P23", (I, "        if (itHistoryData->second.previousActiveStates.empty() == false) {", "        if (itHistoryData->second.previousActiveStates.empty() == true) {"))
m("t23_hist_default_always", "P23", (I, "        if (itHistoryData->second.previousActiveStates.empty() == false) {", "        if ((itHistoryData->second.previousActiveStates.empty() == false) && (INVALID_HSM_STATE_ID == itHistoryData->second.defaultTarget)) {"))
m("t23_def_no_cb", "P23", (I, "            cbTransition = defaultTargetTransitionCallback;", "            HSM_TRACE_DEBUG(\"default\");"))
m("t23_def_cb_both", "P23", (I, "            defHistoryTransitionEvent.ignoreEntryPoints = true;\n        } else {\n            cbTransition = defaultTargetTransitionCallback;\n        }", "            defHistoryTransitionEvent.ignoreEntryPoints = true;\n        }\n\n        cbTransition = defaultTargetTransitionCallback;"))
m("t23_def_order", "P23", (I, "            historyTargets.emplace_back(defaultTarget);\n            historyTargets.emplace_back(historyParent);", "            historyTargets.emplace_back(historyParent);\n            historyTargets.emplace_back(defaultTarget);"))
m("t23_def_no_parent", "P23", (I, "            historyTargets.emplace_back(defaultTarget);\n            historyTargets.emplace_back(historyParent);", "            historyTargets.emplace_back(defaultTarget);"))
m("t23_def_parent_only", "P23", (I, "            historyTargets.emplace_back(defaultTarget);\n            historyTargets.emplace_back(historyParent);", "            historyTargets.emplace_back(historyParent);"))
m("t23_def_swap", "P23", (I, "        if (INVALID_HSM_STATE_ID == defaultTarget) {\n            // transition", "        if (INVALID_HSM_STATE_ID != defaultTarget) {\n            // transition"))
m("t23_def_ignore_entry", "P23", (I, "        if ((INVALID_HSM_STATE_ID != defaultTarget) && (historyTargetState == historyParent)) {", "        if (historyTargetState == historyParent) {"))
m("t23_def_no_ignore", "P23", (I, "            defHistoryTransitionEvent.ignoreEntryPoints = true;\n        } else {", "            HSM_TRACE_DEBUG(\"parent\");\n        } else {"))
m("t23_def_regular", "P23", (I, "    defHistoryTransitionEvent.transitionType = TransitionBehavior::FORCED;\n", ""))
m("t23_def_list_shared", "P23", (I, "    for (const StateID_t historyTargetState : historyTargets) {\n        HsmTransitionCallback_t cbTransition;\n\n        defHistoryTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();\n", "    defHistoryTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();\n\n    for (const StateID_t historyTargetState : historyTargets) {\n        HsmTransitionCallback_t cbTransition;\n"))

r("r_23_fin_early", (I, "    if (itFinalStateEvent != mFinalStates.end()) {\n        StateID_t parentState = INVALID_HSM_STATE_ID;\n", "    if (itFinalStateEvent == mFinalStates.end()) {\n        return false;\n    }\n\n    {\n        StateID_t parentState = INVALID_HSM_STATE_ID;\n"))
r("r_23_fin_ternary", (I, "                if (INVALID_HSM_EVENT_ID != itFinalStateEvent->second) {\n                    finalStateEvent.id = itFinalStateEvent->second;\n                } else {\n                    finalStateEvent.id = event.id;\n                }", "                const EventID_t registeredEvent = itFinalStateEvent->second;\n\n                finalStateEvent.id = ((INVALID_HSM_EVENT_ID != registeredEvent) ? registeredEvent : event.id);"))
r("r_23_fin_flag", (I, "    const auto itFinalStateEvent = mFinalStates.find(destinationState);\n\n    if (itFinalStateEvent != mFinalStates.end()) {", "    const auto itFinalStateEvent = mFinalStates.find(destinationState);\n    const bool isFinal = (itFinalStateEvent != mFinalStates.end());\n\n    if (isFinal) {"), (I, "    return (itFinalStateEvent != mFinalStates.end());\n}", "    return isFinal;\n}"))
r("r_23_fin_and", (I, "        if (true == getParentState(destinationState, parentState)) {\n            // check if there are any other active siblings in this parent state\n            // only generate final state event when all siblings got deactivated\n            if (false == hasActiveChildren(parentState, false)) {", "        if (getParentState(destinationState, parentState) && !hasActiveChildren(parentState, false)) {\n            {"))
r("r_23_fin_at", (I, "    if (itFinalStateEvent != mFinalStates.end()) {\n        StateID_t", "    if (mFinalStates.count(destinationState) > 0U) {\n        StateID_t"))
r("r_23_act_any_of", (I, "    bool res = false;\n\n    for (const StateID_t& activeStateId : mActiveStates) {\n        if ((parent != activeStateId) && (true == includeFinal) || (false == isFinalState(activeStateId))) {\n            if (isSubstateOf(parent, activeStateId)) {\n                HSM_TRACE_DEBUG(\"parent=<%s> has <%s> active\",\n                                getStateName(parent).c_str(),\n                                getStateName(activeStateId).c_str());\n                res = true;\n                break;\n            }\n        }\n    }\n", "    const bool res = std::any_of(mActiveStates.begin(), mActiveStates.end(), [&](const StateID_t activeStateId) {\n        return (includeFinal || !isFinalState(activeStateId)) && isSubstateOf(parent, activeStateId);\n    });\n"))
r("r_23_act_return", (I, "                res = true;\n                break;\n            }\n        }\n    }\n\n    HSM_TRACE_CALL_RESULT(\"res=%d\", BOOL2INT(res));\n    return res;\n}\n\nbool HierarchicalStateMachine::Impl::getHistoryParent", "                return true;\n            }\n        }\n    }\n\n    return res;\n}\n\nbool HierarchicalStateMachine::Impl::getHistoryParent"))
r("r_23_act_order", (I, "        if ((parent != activeStateId) && (true == includeFinal) || (false == isFinalState(activeStateId))) {\n            if (isSubstateOf(parent, activeStateId)) {", "        if (isSubstateOf(parent, activeStateId)) {\n            if (includeFinal || !isFinalState(activeStateId)) {"))
r("r_23_hp_loop", (I, "    auto it =\n        std::find_if(mHistoryStates.begin(), mHistoryStates.end(), [historyState](const std::pair<StateID_t, StateID_t>& item) {\n            // NOTE: false-positive. \"return\" statement belongs to lambda function, not parent function\n            // cppcheck-suppress misra-c2012-15.5\n            return (historyState == item.second);\n        });\n\n    if (mHistoryStates.end() != it) {\n        outParent = it->first;  // cppcheck-suppress misra-c2012-17.8 ; outParent is used to return result\n        wasFound = true;\n    }\n", "    for (auto it = mHistoryStates.begin(); it != mHistoryStates.end(); ++it) {\n        if (historyState == it->second) {\n            outParent = it->first;\n            wasFound = true;\n            break;\n        }\n    }\n"))
r("r_23_hist_single", (I, "            // parent states must be entered before their substates\n            if ((false == curTransitions.empty()) &&\n                ((true == isParentState) || (hasStoredSubstates != historyTransitionEvent.ignoreEntryPoints))) {", "            // every state is entered by an event of its own\n            if ((false == curTransitions.empty()) || (true == isParentState)) {"))
r("r_23_hist_loop", (I, "            const bool hasStoredSubstates =\n                std::any_of(previousActiveStates.begin(), previousActiveStates.end(), [this, prevState](const StateID_t state) {\n                    return isSubstateOf(prevState, state);\n                });\n", "            bool hasStoredSubstates = false;\n\n            for (const StateID_t state : previousActiveStates) {\n                if (isSubstateOf(prevState, state)) {\n                    hasStoredSubstates = true;\n                    break;\n                }\n            }\n\n"))
r("r_23_hist_swap", (I, "            transitionToPreviousActiveStates(itHistoryData->second.previousActiveStates, event, destinationState);\n        } else {", "            std::list<StateID_t> storedStates;\n\n            storedStates.swap(itHistoryData->second.previousActiveStates);\n            transitionToPreviousActiveStates(storedStates, event, destinationState);\n        } else {"))
r("r_23_hist_ref", (I, "        if (itHistoryData->second.previousActiveStates.empty() == false) {\n            transitionToPreviousActiveStates(itHistoryData->second.previousActiveStates, event, destinationState);\n        } else {\n            transitionToDefaultHistoryState(itHistoryData->second.defaultTarget,\n                                            itHistoryData->second.defaultTargetTransitionCallback,\n                                            event,\n                                            destinationState);", "        HistoryInfo& info = itHistoryData->second;\n\n        if (!info.previousActiveStates.empty()) {\n            transitionToPreviousActiveStates(info.previousActiveStates, event, destinationState);\n        } else {\n            transitionToDefaultHistoryState(info.defaultTarget, info.defaultTargetTransitionCallback, event, destinationState);"))
r("r_23_def_push", (I, "        defHistoryTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,\n                                                                      historyTargetState,\n                                                                      TransitionType::EXTERNAL_TRANSITION,\n                                                                      cbTransition,\n                                                                      nullptr);", "        const TransitionInfo targetTransition(destinationState,\n                                              historyTargetState,\n                                              TransitionType::EXTERNAL_TRANSITION,\n                                              cbTransition,\n                                              nullptr);\n\n        defHistoryTransitionEvent.forcedTransitionsInfo->push_back(targetTransition);"))
r("r_23_def_vector", (I, "    std::list<StateID_t> historyTargets;\n", "    std::vector<StateID_t> historyTargets;\n"))
r("r_23_def_move", (I, "            mPendingEvents.push_front(defHistoryTransitionEvent);", "            PendingEventInfo nextEvent = defHistoryTransitionEvent;\n\n            mPendingEvents.push_front(std::move(nextEvent));"))

# P23: what is stored in histories
HC_ = "                        if (itUpdatedHistory == upatedHistory.end()) {\n                            // clear previos history items\n                            itCurHistory->second.previousActiveStates.clear();"
HREG = "                            upatedHistory.emplace_back(&(itCurHistory->second.previousActiveStates));\n"
HSH = "itCurHistory->second.previousActiveStates.emplace_back(curState);"
HDP = "itCurHistory->second.previousActiveStates.emplace_back(activeState);"
HTOP = "            if (topLevelState != parentState) {\n                curState = parentState;\n            } else {\n                break;\n            }\n"
m("t23_rec_swap", "P23", (I, HSH, HDP.replace("activeState)", "activeState )")), (I, HDP, HSH))
m("t23_rec_sh_leaf", "P23", (I, HSH, HDP))
m("t23_rec_deep_child", "P23", (I, HDP, HSH))
m("t23_rec_no_clear", "P23", (I, "                            itCurHistory->second.previousActiveStates.clear();\n", ""))
m("t23_rec_no_reg", "P23", (I, HREG, ""))
m("t23_rec_clear_always", "P23", (I, HC_, HC_.replace("if (itUpdatedHistory == upatedHistory.end()) {", "{")))
m("t23_rec_clear_inv", "P23", (I, "itUpdatedHistory == upatedHistory.end()", "itUpdatedHistory != upatedHistory.end()"))
m("t23_rec_inner", "P23", (I, "    std::list<std::list<StateID_t>*> upatedHistory;\n\n", ""), (I, "        StateID_t curState = activeState;\n        StateID_t parentState = INVALID_HSM_STATE_ID;\n\n        // check if we have parent state\n        while", "        std::list<std::list<StateID_t>*> upatedHistory;\n        StateID_t curState = activeState;\n        StateID_t parentState = INVALID_HSM_STATE_ID;\n\n        // check if we have parent state\n        while"))
m("t23_rec_no_climb", "P23", (I, HTOP, "            break;\n"))
m("t23_rec_top_first", "P23", (I, "            auto itRange = mHistoryStates.equal_range(parentState);\n", "            if (topLevelState == parentState) {\n                break;\n            }\n\n            auto itRange = mHistoryStates.equal_range(parentState);\n"))
m("t23_rec_cur_range", "P23", (I, "            auto itRange = mHistoryStates.equal_range(parentState);\n", "            auto itRange = mHistoryStates.equal_range(curState);\n"))
m("t23_rec_first_only", "P23", (I, HDP + "\n                            }\n                        } else {\n                            // NOTE: do nothing\n                        }\n", HDP + "\n                            }\n                        } else {\n                            // NOTE: do nothing\n                        }\n\n                        break;\n"))
m("t23_rec_stop_top_child", "P23", (I, HTOP, "            if ((topLevelState != parentState) && (topLevelState != curState)) {\n                curState = parentState;\n            } else {\n                break;\n            }\n"))
m("t23_rec_push_front", "P23", (I, HDP, HDP.replace("emplace_back", "emplace_front")))
m("t23_rec_no_dup_check", "P23", (I, "                            if (std::find(itCurHistory->second.previousActiveStates.begin(),\n                                          itCurHistory->second.previousActiveStates.end(),\n                                          curState) == itCurHistory->second.previousActiveStates.end()) {", "                            {"))
m("t23_rec_dup_inv", "P23", (I, "                                          curState) == itCurHistory->second.previousActiveStates.end()) {", "                                          curState) != itCurHistory->second.previousActiveStates.end()) {"))
m("t23_rec_dup_wrong", "P23", (I, "                                          curState) == itCurHistory->second.previousActiveStates.end()) {", "                                          activeState) == itCurHistory->second.previousActiveStates.end()) {"))
m("t23_rec_skip_first", "P23", (I, "    for (const auto& activeState : exitedStates) {\n        StateID_t curState = activeState;", "    for (const auto& activeState : exitedStates) {\n        if (activeState == exitedStates.front()) {\n            continue;\n        }\n\n        StateID_t curState = activeState;"))
m("t23_rec_skip_final", "P23", (I, "        StateID_t curState = activeState;\n        StateID_t parentState = INVALID_HSM_STATE_ID;\n\n        // check if we have parent state\n        while", "        StateID_t curState = activeState;\n        StateID_t parentState = INVALID_HSM_STATE_ID;\n\n        if (true == isFinalState(activeState)) {\n            continue;\n        }\n\n        // check if we have parent state\n        while"))
m("t23_rec_only_one", "P23", (I, "                        if (HistoryType::SHALLOW == itCurHistory->second.type) {", "                        if (false == itCurHistory->second.previousActiveStates.empty()) {\n                            continue;\n                        }\n\n                        if (HistoryType::SHALLOW == itCurHistory->second.type) {"))
m("t23_rec_type_default", "P23", (I, "                        if (HistoryType::SHALLOW == itCurHistory->second.type) {", "                        if ((HistoryType::SHALLOW == itCurHistory->second.type) || (INVALID_HSM_STATE_ID == itCurHistory->second.defaultTarget)) {"))
m("t23_rec_early_empty", "P23", (I, "    std::list<std::list<StateID_t>*> upatedHistory;\n\n", "    std::list<std::list<StateID_t>*> upatedHistory;\n\n    if (exitedStates.size() > 1U) {\n        return;\n    }\n\n"))
UPD = "                        const auto itUpdatedHistory =\n                            std::find(upatedHistory.begin(), upatedHistory.end(), &itCurHistory->second.previousActiveStates);\n"
r("r_23_rec_set", (I, "    std::list<std::list<StateID_t>*> upatedHistory;\n", "    std::set<StateID_t> upatedHistory;\n"), (I, UPD, ""), (I, "if (itUpdatedHistory == upatedHistory.end()) {", "if (upatedHistory.insert(it->second).second) {"), (I, "                            // we store pointer to be able to identify if this history state was already cleared or not\n" + HREG, ""), (I, "#include <algorithm>", "#include <algorithm>\n#include <set>"))
r("r_23_rec_set_count", (I, "    std::list<std::list<StateID_t>*> upatedHistory;\n", "    std::set<StateID_t> upatedHistory;\n"), (I, UPD, ""), (I, "if (itUpdatedHistory == upatedHistory.end()) {", "if (upatedHistory.count(it->second) == 0U) {"), (I, HREG, "                            upatedHistory.insert(it->second);\n"), (I, "#include <algorithm>", "#include <algorithm>\n#include <set>"))
r("r_23_rec_vector", (I, "    std::list<std::list<StateID_t>*> upatedHistory;\n", "    std::vector<HistoryInfo*> upatedHistory;\n"), (I, "upatedHistory.end(), &itCurHistory->second.previousActiveStates);", "upatedHistory.end(), &itCurHistory->second);"), (I, HREG, "                            upatedHistory.push_back(&(itCurHistory->second));\n"))
r("r_23_rec_continue", (I, "                    if (itCurHistory != mHistoryData.end()) {\n                        const auto itUpdatedHistory", "                    if (itCurHistory == mHistoryData.end()) {\n                        continue;\n                    }\n\n                    {\n                        const auto itUpdatedHistory"))
r("r_23_rec_break", (I, HTOP, "            if (topLevelState == parentState) {\n                break;\n            }\n\n            curState = parentState;\n"))
r("r_23_rec_state", (I, "                        if (HistoryType::SHALLOW == itCurHistory->second.type) {\n                            if (std::find(itCurHistory->second.previousActiveStates.begin(),\n                                          itCurHistory->second.previousActiveStates.end(),\n                                          curState) == itCurHistory->second.previousActiveStates.end()) {\n                                HSM_TRACE_DEBUG(\"SHALLOW -> store state <%s> in history of parent <%s>\",\n                                                getStateName(curState).c_str(),\n                                                getStateName(it->second).c_str());\n                                itCurHistory->second.previousActiveStates.emplace_back(curState);\n                            }\n                        } else if (HistoryType::DEEP == itCurHistory->second.type) {\n                            if (std::find(itCurHistory->second.previousActiveStates.begin(),\n                                          itCurHistory->second.previousActiveStates.end(),\n                                          activeState) == itCurHistory->second.previousActiveStates.end()) {\n                                HSM_TRACE_DEBUG(\"DEEP -> store state <%s> in history of parent <%s>\",\n                                                getStateName(activeState).c_str(),\n                                                getStateName(it->second).c_str());\n                                itCurHistory->second.previousActiveStates.emplace_back(activeState);\n                            }\n                        } else {\n                            // NOTE: do nothing\n                        }\n", "                        auto& stored = itCurHistory->second.previousActiveStates;\n                        const StateID_t toStore = ((HistoryType::SHALLOW == itCurHistory->second.type) ? curState : activeState);\n\n                        if (std::none_of(stored.begin(), stored.end(), [toStore](const StateID_t s) { return (s == toStore); })) {\n                            stored.push_back(toStore);\n                        }\n"))
r("r_23_rec_switch", (I, "                        if (HistoryType::SHALLOW == itCurHistory->second.type) {\n                            if (std::find", "                        const bool isShallow = (HistoryType::SHALLOW == itCurHistory->second.type);\n\n                        if (isShallow) {\n                            if (std::find"), (I, "                        } else if (HistoryType::DEEP == itCurHistory->second.type) {", "                        } else if (!isShallow) {"))
r("r_23_rec_walk", (I, "            auto itRange = mHistoryStates.equal_range(parentState);\n", ""), (I, "            if (itRange.first != itRange.second) {\n                HSM_TRACE_DEBUG(\"parent=<%s> has history items\"", "            {\n                HSM_TRACE_DEBUG(\"parent=<%s> has history items\""), (I, "                for (auto it = itRange.first; it != itRange.second; ++it) {\n                    auto itCurHistory", "                for (auto it = mHistoryStates.begin(); it != mHistoryStates.end(); ++it) {\n                    if (it->first != parentState) {\n                        continue;\n                    }\n\n                    auto itCurHistory"))
r("r_23_rec_empty", (I, "    std::list<std::list<StateID_t>*> upatedHistory;\n\n", "    std::list<std::list<StateID_t>*> upatedHistory;\n\n    if (exitedStates.empty() || mHistoryStates.empty()) {\n        return;\n    }\n\n"))
r("r_23_rec_helper", (I, "void HierarchicalStateMachine::Impl::updateHistory(", "static void storeOnce(std::list<StateID_t>& states, const StateID_t state) {\n    if (std::find(states.begin(), states.end(), state) == states.end()) {\n        states.emplace_back(state);\n    }\n}\n\nvoid HierarchicalStateMachine::Impl::updateHistory("), (I, "                            if (std::find(itCurHistory->second.previousActiveStates.begin(),\n                                          itCurHistory->second.previousActiveStates.end(),\n                                          activeState) == itCurHistory->second.previousActiveStates.end()) {\n                                HSM_TRACE_DEBUG(\"DEEP -> store state <%s> in history of parent <%s>\",\n                                                getStateName(activeState).c_str(),\n                                                getStateName(it->second).c_str());\n                                itCurHistory->second.previousActiveStates.emplace_back(activeState);\n                            }\n", "                            storeOnce(itCurHistory->second.previousActiveStates, activeState);\n"))
r("r_23_rec_loop_dup", (I, "                            if (std::find(itCurHistory->second.previousActiveStates.begin(),\n                                          itCurHistory->second.previousActiveStates.end(),\n                                          curState) == itCurHistory->second.previousActiveStates.end()) {", "                            bool isStored = false;\n\n                            for (const StateID_t s : itCurHistory->second.previousActiveStates) {\n                                if (s == curState) {\n                                    isStored = true;\n                                    break;\n                                }\n                            }\n\n                            if (!isStored) {"))

EXV = "                    if (true == isExitAllowed) {\n                        outExitedStates.emplace_back(*itActiveState);\n                    } else {\n                        break;\n                    }\n"
m("t16_drop_other_branch", "P16", (I, EXV, "                    if (false == isExitAllowed) {\n                        outExitedStates.remove_if([this, itActiveState](const StateID_t exitedState) {\n                            return !isSubstateOf(*itActiveState, exitedState);\n                        });\n                        break;\n                    }\n\n                    outExitedStates.emplace_back(*itActiveState);\n"))
m("t16_drop_last", "P16", (I, EXV, EXV.replace("                        break;", "                        outExitedStates.erase(outExitedStates.begin());\n                        break;")))

UH = "                // store history for states between \"fromState\" ----> \"it->fromState\"\n                updateHistory(curTransition.fromState, outExitedStates);\n\n"
m("t23_call_none", "P23", (I, UH, ""))
m("t23_call_veto", "P23", (I, UH, ""), (I, "            // if no one blocked ongoing transition - remove child states from active list\n", "            updateHistory(curTransition.fromState, outExitedStates);\n\n            // if no one blocked ongoing transition - remove child states from active list\n"))
m("t23_call_dest", "P23", (I, UH, UH.replace("curTransition.fromState", "curTransition.destinationState")))
m("t23_call_active", "P23", (I, UH, UH.replace("outExitedStates", "mActiveStates")))
m("t23_call_some", "P23", (I, UH, UH.replace("                updateHistory", "                if (outExitedStates.size() > 1U) updateHistory")))
m("t23_call_internal", "P23", (I, UH, UH.replace("                updateHistory", "                if (curTransition.fromState != curTransition.destinationState) updateHistory")))
r("r_23_call_after", (I, UH, ""), (I, "                for (const auto& curState : outExitedStates) {\n                    mActiveStates.remove(curState);\n                }\n", "                for (const auto& curState : outExitedStates) {\n                    mActiveStates.remove(curState);\n                }\n\n                updateHistory(curTransition.fromState, outExitedStates);\n"))
r("r_23_call_veto_first", (I, "                    if (true == isExitAllowed) {\n                        outExitedStates.emplace_back(*itActiveState);\n                    } else {\n                        break;\n                    }\n", "                    if (false == isExitAllowed) {\n                        break;\n                    }\n\n                    outExitedStates.emplace_back(*itActiveState);\n"))
r("r_23_call_local", (I, UH, "                const StateID_t leftState = curTransition.fromState;\n\n                updateHistory(leftState, outExitedStates);\n\n"))
