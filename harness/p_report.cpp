// C10: every accepted send is reported complete exactly once, in order.
#include "traffic.hpp"
using namespace net;

static void reports(Gen &g, bool raw, bool heavy)
{
	Clean cl;
	Impls im;
	unsigned ncli = 1 + (unsigned)g.below(heavy ? 2 : 4);
	unsigned long rep, part;
	{
		Opts o;
		o.raw = raw;
		o.heavy = heavy;
		o.avg = heavy ? 12 : 25;
		o.withcb = o.reports = true;
		o.delivery = false;
		o.errors = g.flip();
		o.churn = g.flip();
		o.inside = g.chance(1, 3);
		Traffic t(g, o);
		t.start(ncli);
		t.run();
		rep = t.w.reported;
		part = t.w.partial + t.w.queued;
	}
	cl.verify();
	if (rep >= 3 && part)
		nontrivial();
}

PBT_TARGET(c10_small, "a server and clients with send callbacks, small messages under generated restrictions and errors of reads and writes, disconnections and stops; "
	"non-trivial: at least 3 reports and a send not written at once", 3, 60)
{
	reports(g, false, false);
}
PBT_TARGET(c10_raw, "the same with raw buffers; non-trivial: same rule", 1, 60)
{
	reports(g, true, false);
}
PBT_TARGET(c10_large, "the same with messages up to 1 MB over small socket buffers; non-trivial: same rule", 1, 90)
{
	reports(g, false, true);
}
