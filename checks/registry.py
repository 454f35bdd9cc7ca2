"""Which analyses decide which property."""
from . import locks, cv, monitor, outcome, values, sched, wake, timers, io, pipe, switch, shared, pool, order, guards, shutdown, reclaim

CHECKS = {
    "C01": [locks.run_mutexes, locks.run_spin],
    "C02": [locks.run_shared],
    "C03": [locks.run_mutexes, locks.run_shared],
    "C04": [cv.run_cv],
    "C05": [cv.run_cv],
    "C06": [monitor.run_sem],
    "C07": [monitor.run_latch],
    "C08": [monitor.run_barrier],
    "C09": [monitor.run_once],
    "C10": [monitor.run_chan],
    "C11": [monitor.run_chan],
    "C12": [outcome.run_wait],
    "C13": [outcome.run_handle],
    "C15": [wake.run_wake],
    "C16": [sched.run_picks],
    "C17": [pool.run_pinned],
    "C18": [pool.run_pool],
    "C19": [timers.run_timers],
    "C20": [switch.run_switch],
    "C21": [shared.run_shared],
    "C22": [io.run_io],
    "C23": [io.run_io],
    "C24": [io.run_buffers],
    "C25": [pipe.run_pipe],
    "C26": [order.run_order],
    "C27": [guards.run_guards],
    "C31": [shutdown.run_shutdown],
    "C14": [reclaim.run_reclaim],
    "C28": [values.run_values],
    "C29": [values.run_events],
}

AI = "abstract interpretation of the type-checked source"
TRUST = " Trusted: clang's AST, the models of the standard library in engine/models.py, and the assumptions listed in the evidence."

NOTES = {
    "C01": (AI + " with a rely-guarantee ownership protocol per critical section",
            "Every path of every lock operation is followed for every protocol state; interleavings are covered by replacing the protected "
            "state with all states the protocol allows at each entry of a critical section." + TRUST),
    "C02": (AI + " with a rely-guarantee protocol over mode, owner set and typed wait queue",
            "As C01; owner set and queue are sequences of known elements plus an unknown rest of any length." + TRUST),
    "C03": (AI + "; typestate of queueing, wait mark, suspension, grant and wake-up",
            "Every path of every blocking operation and release; safety part of 'no waiter is stranded', assuming the scheduler runs runnable "
            "coroutines (C15, C16)." + TRUST),
    "C04": (AI + "; typestate of registration, lock release, suspension and notification with a rely on the waiter list",
            "Every path of every wait and notification; the waiter list is a sequence of known elements plus an unknown rest of any length." + TRUST),
    "C05": (AI + "; truth of predicate and timeout tracked per wait, timer callbacks as steps of the environment",
            "Every path of every predicate and timed wait, with the timer firing at every point where it may." + TRUST),
}
for p, what in (("C06", "number of permits"), ("C07", "outstanding count"), ("C08", "remaining count, phase and expected count"), ("C09", "completion flag"),
                ("C10", "queue and close flag"), ("C11", "queue and close flag")):
    NOTES[p] = (AI + " per critical section: rely on the %s, allowed steps, notifications owed" % what,
                "Every path of every operation from every state others may leave; counts are symbolic with difference bounds. The mutex and the "
                "condition variable are taken as primitives (C01, C03, C04)." + TRUST)

NOTES["C12"] = (AI + "; typestate of finish, publication and wait, with the finishing coroutine and the timer as steps of the environment",
                "Every path of the end of a coroutine and of every kind of wait; the coroutine may finish, and the timer expire, wherever the locks held "
                "allow it, also after the wait has returned. Two waiters race only through the lock rule of the stored exception." + TRUST)
NOTES["C13"] = (AI + "; ownership typestate of the handle, per operation and per combination of full and empty handles; type trait for copying",
                "Every path of every handle operation, the coroutine ending normally or with an exception; sequences follow from the per-operation "
                "pre- and postconditions." + TRUST)
NOTES["C14"] = (AI + " of the scheduler over sequences of switches; typestate of coroutine objects and stack memory, every deletion and every later use judged",
                "Two coroutines with their own stacks and one on the shared stack, every order of up to 4 switches up to symmetry, each ending and being given up "
                "in any order, also by another thread in the middle of a switch. Uses by waiters are the subject of C12, those by the handle of C13." + TRUST)
NOTES["C15"] = (AI + "; sleep and wake-up of a thread as a check and a notification under one lock, with other threads acting at every lock taken",
                "World of one environment with two coroutines in any status, a third being added and a stop being requested; the sleeping thread, every waker "
                "and every sleeping function is followed on every path. Deadlines are concrete example values." + TRUST)
NOTES["C16"] = (AI + "; every pick compared with the urgency and turn order kept by the analysis",
                "World of one environment with four coroutines of which two have the same priority, each in any status; sequences of three picks with "
                "changes of priority, arrivals, ends of waits, also in the middle of an operation of another thread." + TRUST)
NOTES["C17"] = (AI + " of the manager over pools of environments with unknown states and marks; every placing judged against what the path knows about the environment",
                "Pools of up to two environments of every kind, coroutines of every kind and state; the code that moves coroutines is followed although the tree guards it by a "
                "condition that is never true." + TRUST)
NOTES["C18"] = (AI + " of the manager over pools of environments with unknown states and marks; lock sets of stopping and adding compared",
                "Pools of up to three environments of every kind, maxima of 0 to 2." + TRUST)
NOTES["C19"] = (AI + "; invariant 'running exactly while queued' over a small set of timers with symbolic deadlines, another thread acting at every lock taken",
                "Two timers (three in the thorough tier) of every kind with any order of deadlines and addresses; every path of start, stop, reset and of "
                "the thread that serves the queue up to its next sleep, at most two dispatches of one periodic timer." + TRUST)
NOTES["C20"] = ("abstract interpretation of the machine code of the switch over symbolic registers and memory, from the side left and from the side entered; " + AI + " for the set-up",
                "The whole instruction sequence as compiled by g++, for any register contents; new coroutines with stack sizes of every residue class that matters. "
                "Floating point control registers are not part of the property." + TRUST)
NOTES["C21"] = (AI + " of the scheduler over sequences of switches; stack contents as tokens of their owner and stay, every copy and switch judged against them",
                "Two coroutines on one shared stack and two with their own, every order of up to 5 switches (8 in the thorough tier) up to symmetry, coroutines ending and "
                "becoming runnable at any of them; example addresses and sizes." + TRUST)
NOTES["C22"] = (AI + "; the operating system as an adversary that answers every call with any success or any error code; typestate of new descriptors",
                "Every path of every transfer up to four system calls (the loop state repeats after one retry), of every function handing out a descriptor, and of "
                "connecting up to five calls." + TRUST)
NOTES["C23"] = (AI + "; arguments of the caller as opaque symbols that must reach the system call of the same name unchanged",
                "Every method of the I/O classes with any arguments and any result of the system call; file and socket flags take a few concrete values." + TRUST)
NOTES["C24"] = (AI + "; every split of a buffer into partial transfers, ended by completion, failure or end of stream",
                "Buffers of up to 4 bytes (6 in the thorough tier), every sequence of partial counts; larger buffers follow the same loop." + TRUST)
NOTES["C25"] = (AI + "; abstract channels that end or lose their consumer at any time, the items handed on compared with the definition of the stage",
                "Every stage and source with up to 3 items (4 in the thorough tier), stage parameters up to that number, functions of the user returning any value or "
                "throwing; the workers of a fork are followed one after the other." + TRUST)
NOTES["C26"] = (AI + "; pairs of locks held and waited for, collected over every operation; search for cycles not excluded by a common lock",
                "Every operation of environments, coroutines, the manager, timers and the synchronisation objects, started from a pool of two environments with three "
                "coroutines of unknown state. Locks are distinguished by class and field, and by object where one operation holds two of the same." + TRUST)
NOTES["C27"] = (AI + "; lock set of every access to every field of the shared objects, intersected per field; locks held at every end of an operation",
                "The operations of C26 in the same worlds. Data that never is used under a lock and is neither a container nor a state, mark or priority counts as confined "
                "to one thread; the texts for diagnosis are left out." + TRUST)
NOTES["C31"] = (AI + "; the request as a step of the environment before each background activity starts and at each of its sleeps; check and notification under one lock",
                "The manager is constructed and destroyed over pools of up to two environments of every kind; every background activity it starts is followed to its end. "
                "Environments told to stop are not waited for, which the property does not ask." + TRUST)
NOTES["C28"] = (AI + "; every read followed from every kind of stored content (empty, own type, other type, copied), with symbolic values",
                "The instances for int and std::string stand for all pairs of types; the code is one template. Local storage starts from an arbitrary set "
                "of stored names." + TRUST)
NOTES["C29"] = (AI + "; inductive invariant of handles and set of subscriptions, publication with callbacks that change the set",
                "Subscribe and unsubscribe from an arbitrary set (inductive step), publish with three arbitrary subscriptions of which one may change "
                "the set." + TRUST)

NOT_APPLICABLE = {
    "C30": 'Whether a forced switch exchanges both contexts as a whole depends on the frame the compiler gives to the signal handler, which finds the interrupted registers at a fixed distance from its stack pointer; the source does not determine it. Lock balance on every way out is claimed under C27.',
    "C32": "The values of floating point registers and of the red zone at an arbitrary instruction are properties of compiler generated machine "
           "code at run time; the source does not determine them, so a source analysis cannot decide the property.",
    "C33": "A bound on the number of switches until a coroutine runs again is a liveness statement over fair schedules; the safety parts that "
           "static rules can decide (order of selection, rotation) are claimed under C16.",
}


RULES = {}
for mod in (locks, cv, monitor, outcome, values, sched, wake, timers, io, pipe, switch, shared, pool, order, guards, shutdown, reclaim):
    for p, rs in mod.RULES.items():
        RULES.setdefault(p, []).extend(rs)


def run(prop, prog, rep):
    for r in RULES[prop]:
        rep.rule(*r)
    for f in CHECKS[prop]:
        f(prog, rep)
