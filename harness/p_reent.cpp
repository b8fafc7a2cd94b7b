// C17: library calls made from inside callbacks are safe.
#include "traffic.hpp"
using namespace net;

static void inside(Gen &g, bool raw)
{
	Clean cl;
	Impls im;
	unsigned ncli = 1 + (unsigned)g.below(4), done, stops;
	{
		Opts o;
		o.raw = raw;
		o.withcb = o.reports = g.flip();
		o.getters = true;
		o.churn = g.chance(2, 3);
		o.inside = true;
		o.errors = g.chance(1, 4);
		o.heavy = g.chance(1, 5);
		Traffic t(g, o);
		t.start(ncli);
		t.run();
		done = t.inside_done;
		stops = t.inside_stops;
	}
	cl.verify();
	if (done >= 3 || stops)
		nontrivial();
}

PBT_TARGET(c17_msg, "a server and clients where every callback may send, broadcast, disconnect, suspend, resume, change read buffers, stop contexts, add idle functions "
	"and set timers; non-trivial: at least 3 actions from callbacks or a stop", 2, 60)
{
	inside(g, false);
}
PBT_TARGET(c17_raw, "the same in raw mode; non-trivial: same rule", 1, 60)
{
	inside(g, true);
}
