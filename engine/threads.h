// Thread model: sequentially consistent interleavings, switched at synchronisation operations.
#pragma once

static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
static void vcTick(State& s) { auto& v = s.th[s.cur].vc; if ((int)v.size() <= s.cur) v.resize(s.cur + 1, 0); v[s.cur]++; }
static void acquireOn(State& s, Val a) { if (s.th.size() < 2) return; if (a.e) return; auto it = s.syncvc.find(a.c); if (it != s.syncvc.end()) vcJoin(s.th[s.cur].vc, it->second); }
static void releaseOn(State& s, Val a) { if (a.e) return; vcJoin(s.syncvc[a.c], s.th[s.cur].vc); if (s.th.size() >= 2) vcTick(s); }
static void acqrelOn(State& s, Val a) { acquireOn(s, a); releaseOn(s, a); }

static bool enabled(State& s, int i) {
	Thread& t = s.th[i];
	switch (t.st) {
	case TRun: return true;
	case TMutex: { auto it = s.mx.find(t.waitOn); return it == s.mx.end() || it->second.owner < 0; }
	case TCond: return t.signalled || optSpurious;
	case TJoin: return s.th[t.waitOn].st == TDone;
	case TDone: return false;
	}
	return false;
}
static void logSched(State& s, int to) { s.in.push_back(Input{"sched", 8, nullptr, (uint64_t)to}); }

// The current thread cannot continue: fork over every enabled thread. Returns false when none is.
static bool switchAway(State& s) {
	std::vector<int> en;
	for (size_t i = 0; i < s.th.size(); i++) if (enabled(s, i)) en.push_back(i);	// (the current thread only if its wait may time out)
	if (en.empty()) {
		violation(s, "deadlock", "no thread can run: deadlock or lost wakeup", s.m);
		return false;
	}
	for (size_t k = 1; k < en.size(); k++) {
		State* n = fork(s);
		n->cur = en[k];
		if (n->th[n->cur].st != TRun) { n->th[n->cur].st = TRun; }
		n->th[n->cur].schedOk = true;
		logSched(*n, en[k]);
		nSched++;
	}
	s.cur = en[0];
	s.th[s.cur].st = TRun;
	s.th[s.cur].schedOk = true;
	logSched(s, en[0]);
	nSched++;
	return true;
}
// Called before a visible operation. True: perform it now. False: another thread was chosen.
static bool visible(State& s) {
	Thread& t = s.th[s.cur];
	if (t.schedOk) return true;
	if (s.th.size() < 2) return true;
	bool any = false;
	if (s.preempt < optPreempt)
		for (size_t i = 0; i < s.th.size(); i++) {
			if ((int)i == s.cur || !enabled(s, i)) continue;
			any = true;
			State* n = fork(s);
			n->cur = i; n->preempt++;
			n->th[i].st = TRun;
			n->th[i].schedOk = true;
			n->th[s.cur].schedOk = false;
			logSched(*n, i);
			nSched++;
		}
	(void)any;
	bool others = false;
	for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st != TDone) others = true;
	if (others) logSched(s, s.cur);		// one entry per visible operation while other threads live
	t.schedOk = true;
	return true;
}
static void samplePath(State& s) {	// reservoir sample of completed paths, for validation against the native build
	nDone++;
	size_t k = samples.size() < optSamples ? samples.size() : rnd() % nDone;
	if (k >= optSamples) return;
	std::string o = "{\"inputs\":" + inputsJson(s, s.m) + ",\"outs\":[";
	X.stampNo++;
	for (size_t i = 0; i < s.outs.size(); i++) o += (i ? "," : "") + std::to_string(s.outs[i].e ? X.evalr(s.outs[i].e, s.m) : s.outs[i].c & maskw(s.outw[i]));
	o += "]}";
	if (k == samples.size()) samples.push_back(o); else samples[k] = o;
}
static int threadEnd(State& s) {
	Thread& t = s.th[s.cur];
	t.st = TDone;
	t.schedOk = false;
	if (s.cur == 0) {	// main returned: the program ends
		samplePath(s);
		return DEAD;
	}
	return switchAway(s) ? STAY : DEAD;
}
