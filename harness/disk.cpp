#include "disk_common.h"
#include <fcntl.h>

std::string g_dir;
std::map<std::string, std::string> g_foreign;

#ifndef NO_SORT
extern template void sort_body<rec_t>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase1::entry_1>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase1::entry_2>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase1::entry_4>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase1::entry_7>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase2::entry_x>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase3::entry_lp>(int, int, int, int, int, int, int, uint64_t);
extern template void sort_body<phase3::entry_np>(int, int, int, int, int, int, int, uint64_t);
#endif
#ifndef NO_TABLE
extern template void table_body<phase1::tmp_entry_1>(int, int, int, int, uint64_t);
extern template void table_body<phase1::tmp_entry_x>(int, int, int, int, uint64_t);
extern template void table_body<phase1::entry_7>(int, int, int, int, uint64_t);
#endif

// ------------------------------------------------------------------- histories
static void hist_body(int ks, uint64_t seed, const std::vector<std::vector<std::string>>& ops)
{
	typedef DiskSort<rec_t, rec_key> S;
	clean_dir();
	make_foreign("p");
	if(seed % 3 == 1 && ops.size() && ops[0][0] == "new") {
		int l = 0; while((1 << l) < atoi(ops[0][1].c_str())) l++;
		leftovers<rec_t>(ks, l, g_dir + "/p", 20, seed);
	}
	S* s = nullptr;
	int lb = 0;
	std::map<int, std::shared_ptr<S::WriteCache>> caches;
	for(auto& op : ops) {
		const std::string o = op[0];
		auto a = [&](int i) { return atoi(op[i].c_str()); };
		const char* r = "ok";
		std::string txt = "\"" + o + "\"";
		try {
			if(o == "new" || o == "open") {
				txt += "," + op[1];
				lb = 0; while((1 << lb) < a(1)) lb++;
				s = new S(ks, lb, g_dir + "/p", o == "open");
			} else if(o == "add") {
				rec_t e; e.key = a(2); e.id = a(3);
				txt += "," + op[1] + "," + ent(e) + "," + ((e.key >> ks) ? "0" : "1");
				if(a(1) == 0) s->add(e); else caches.at(a(1))->add(e);
			} else if(o == "cnew") { txt += "," + op[1]; caches[a(1)] = s->add_cache(); }
			else if(o == "cflush") { txt += "," + op[1]; caches.at(a(1))->flush(); }
			else if(o == "cdel") { txt += "," + op[1]; caches.erase(a(1)); }
			else if(o == "finish") s->finish();
			else if(o == "keep") { txt += "," + op[1]; s->set_keep_files(a(1)); }
			else if(o == "close") s->close();
			else if(o == "destroy") { S* p = s; s = nullptr; delete p; }
			else if(o == "read") {
				collect_t<rec_t> c;
				s->read(&c, a(1), a(1) == 3 ? -1 : a(1));
				txt += ",[" + c.out + "]";
			}
		} catch(const std::exception& ex) { r = "exc"; if(o == "read") txt += ",[]"; }
		ev_long("[" + txt + ",\"" + r + "\"]");
		ls_event(rec_t::disk_size);
	}
	// objects that are still open are abandoned: only explicit destruction is observed
	for(auto& c : caches) new std::shared_ptr<S::WriteCache>(c.second);
}

#ifndef NO_TABLE
// a table of n 16 MB records (mostly holes): byte offsets beyond 2^31 and 2^32
static void wide_body(int block, int threads, int n, uint64_t seed)
{
	clean_dir(); g_foreign.clear();
	const std::string f = g_dir + "/w.tmp";
	ev("[\"tnew\"]");
	int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
	for(int i = 0; i < n; ++i) {
		wide_t e; e.id = (uint32_t)mix(seed + i);
		if(pwrite(fd, &e.id, 4, (off_t)(i + 1) * wide_t::disk_size - 4) != 4) { perror("pwrite"); exit(3); }
		ev("[\"write\",%d]", tr<wide_t>::dig(e));
	}
	close(fd);
	struct col_t : Processor<std::pair<std::vector<wide_t>, size_t>> {
		std::string out;
		void take(std::pair<std::vector<wide_t>, size_t>& b) override {
			out += (out.empty() ? "[" : ",[") + std::to_string(b.second) + ",[";
			for(size_t i = 0; i < b.first.size(); ++i) { if(i) out += ","; out += std::to_string(tr<wide_t>::dig(b.first[i])); }
			out += "]]";
		}
	} c;
	DiskTable<wide_t> t(f, n);
	t.read(&c, threads, block);
	ev_long("[\"read\",[" + c.out + "]]");
	ev("[\"close\",%zu]", t.get_info().num_entries);
	unlink(f.c_str());
}
#endif

template<class F> static void by_type(const std::string& t, F f) {
	if(t == "rec") f((rec_t*)0);
	else if(t == "lp") f((phase3::entry_lp*)0);
#ifndef SORT_SOME
	else if(t == "e1") f((phase1::entry_1*)0);
	else if(t == "e2") f((phase1::entry_2*)0);
	else if(t == "e4") f((phase1::entry_4*)0);
	else if(t == "e7") f((phase1::entry_7*)0);
	else if(t == "ex") f((phase2::entry_x*)0);
	else if(t == "np") f((phase3::entry_np*)0);
#endif
	else { fprintf(stderr, "type? %s\n", t.c_str()); exit(3); }
}
template<class F> static void by_ttype(const std::string& t, F f) {
	if(t == "t1") f((phase1::tmp_entry_1*)0);
	else if(t == "tx") f((phase1::tmp_entry_x*)0);
	else if(t == "e7") f((phase1::entry_7*)0);
	else { fprintf(stderr, "type? %s\n", t.c_str()); exit(3); }
}

int main(int argc, char** argv)
{
	FILE* out = fopen(argv[1], "w");
	g_dir = argv[2];
	mkdir(g_dir.c_str(), 0700);
	char* line = nullptr; size_t cap = 0; ssize_t len;
	long runs = 0, distinct = 0, abn = 0, no = 0;
	while((len = getline(&line, &cap, stdin)) > 0) {
		std::string s(line, len); if(s.back() == '\n') s.pop_back();
		std::istringstream is(s);
		std::string kind; is >> kind;
		scenario_t sc;
		sc.mem_rate = 16;
		std::string label = s.substr(0, s.find('|'));
		if(kind == "hist") {
			int ks; is >> ks >> g_read_chunk_size >> g_write_chunk_size >> sc.runs >> sc.seed;
			sc.free_runs = 1;
			std::string rest = s.substr(s.find('|') + 1);
			std::vector<std::vector<std::string>> ops;
			std::istringstream rs(rest); std::string o;
			while(std::getline(rs, o, ';')) { std::istringstream os(o); std::vector<std::string> v; std::string w; while(os >> w) v.push_back(w); if(v.size()) ops.push_back(v); }
			const uint64_t seed = sc.seed;
			sc.body = [=] { hist_body(ks, seed, ops); };
			label = "hist " + std::to_string(no);
		} else if(kind == "sort") {
			std::string type; int ks, lb, th, thr, wr, n, dist;
			is >> type >> ks >> lb >> g_read_chunk_size >> g_write_chunk_size >> th >> thr >> wr >> n >> dist >> sc.runs >> sc.free_runs >> sc.dfs >> sc.seed;
			const uint64_t seed = sc.seed;
#ifndef NO_SORT
			by_type(type, [&](auto* p) { typedef std::decay_t<decltype(*p)> T;
				sc.body = [=] { ev("[\"new\",%d,\"ok\"]", 1 << lb); sort_body<T>(ks, lb, th, thr, wr, n, dist, seed); }; });
#endif
		} else if(kind == "wide") {
			int block, th, n; is >> block >> th >> n >> sc.free_runs >> sc.seed;
			sc.runs = 0; g_read_chunk_size = g_write_chunk_size = 1;
			const uint64_t seed = sc.seed;
#ifndef NO_TABLE
			sc.body = [=] { wide_body(block, th, n, seed); };
#endif
		} else if(kind == "table") {
			std::string type; int block, th, n, split;
			is >> type >> g_read_chunk_size >> g_write_chunk_size >> block >> th >> n >> split >> sc.runs >> sc.free_runs >> sc.seed;
			const uint64_t seed = sc.seed;
#ifndef NO_TABLE
			by_ttype(type, [&](auto* p) { typedef std::decay_t<decltype(*p)> T; sc.body = [=] { table_body<T>(block, th, n, split, seed); }; });
#endif
		} else continue;
		no++;
		while(!label.empty() && label.back() == ' ') label.pop_back();
		sc.head = "\"sc\":\"" + label + "\",\"line\":" + std::to_string(no);
		auto st = run_scenario(sc, out);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(out);
	clean_dir(); rmdir(g_dir.c_str());
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
