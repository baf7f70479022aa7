ID="C31-context-swallows"; PROP="C31"
NEEDS="a stateless observer that takes a notification without its context, when the notification is sent with one"
BREAKS="observers that do not take the context are passed over when a context is given"
EDITS=[("exp/observer.h","""    -> decltype(TObserver::on_notify(n), void(), bool{})
{
    TObserver::on_notify(n);

    return true;
}

// bool gives this one precedence, since we call with (n, true)
template <class TObserver, class TNotifier, class TContext>
static auto notify_helper(const TNotifier& n, TContext& context, bool)
    -> decltype(TObserver::on_notify(n, context), void(), bool{})""","""    -> decltype(TObserver::on_notify(n), void(), bool{})
{
    return false;
}

// bool gives this one precedence, since we call with (n, true)
template <class TObserver, class TNotifier, class TContext>
static auto notify_helper(const TNotifier& n, TContext& context, bool)
    -> decltype(TObserver::on_notify(n, context), void(), bool{})""")]
DEMO=r"""
#include <estd/exp/observer.h>
struct E { int v; }; struct X { int n = 0; };
static int got = 0;
struct O { static void on_notify(const E& e) { got += e.v; } };
struct P { static void on_notify(const E& e, X& x) { x.n += e.v; } };
int main()
{
    X x;
    estd::experimental::internal::stateless_subject<O, P>::notify(E{3}, x);
    return got == 3 && x.n == 3 ? 0 : 1;
}
"""
