// Developer commands: checks of the readers and builders themselves.
#include "db.h"
#include <fstream>
#include <iterator>
#include <cstdio>
namespace sim {
int dev_main(int argc, char **argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	string c = argc > 0 ? argv[0] : "";
	if (c == "rd") {
		for (int i = 1; i < argc; i++) {
			std::ifstream f(argv[i], std::ios::binary); Bytes b((std::istreambuf_iterator<char>(f)), {});
			RdDb d = rd1cd(b);
			printf("%s: err='%s' ver=%s ps=%u len=%u free=%zu tables=%zu lost=%zu\n", argv[i], d.error.c_str(), ver_name[d.ver], d.pagesize, d.length, d.free.size(), d.tables.size(), d.lost.size());
			for (auto &t : d.tables) printf("   %s descr@%u data=%zu blob=%zu index=%zu\n", t.name.c_str(), t.block, t.o[0].data.size(), t.o[1].data.size(), t.o[2].data.size());
		}
		return 0;
	}
	if (c == "mk") {
		int n = argc > 1 ? atoi(argv[1]) : 100;
		for (int i = 0; i < n; i++) {
			Rng r(i + 1); Ver v = Ver(i % 6); DbDef db = random_db(r, v, r.below(3)); Img img = mk1cd(db); RdDb d = rd1cd(img);
			string e = d.error;
			if (e.empty() && d.tables.size() != db.tables.size()) e = "tables";
			if (e.empty() && d.free.size() != db.free.size()) e = fmt("free %zu vs %zu", d.free.size(), db.free.size());
			for (size_t k = 0; e.empty() && k < db.tables.size(); k++) {
				auto &t = db.tables[k]; RdTable *q = d.table(t.name);
				if (!q) { e = "no table " + t.name; break; }
				if (q->o[0].data != t.data_bytes) e = t.name + " data " + diff_bytes(q->o[0].data, t.data_bytes);
				else if (q->o[1].data != t.blob_bytes) e = t.name + " blob " + diff_bytes(q->o[1].data, t.blob_bytes);
				else if (q->o[2].data != t.index_bytes) e = t.name + " index " + diff_bytes(q->o[2].data, t.index_bytes);
			}
			if (e.size() || i < 12) printf("%d %s ps=%u pages=%u tables=%zu lost=%zu/%zu %s\n", i, ver_name[v], db.pagesize, db.pages, db.tables.size(), d.lost.size(), db.lost.size(), e.empty() ? "ok" : e.c_str());
			if (e.size()) return 1;
		}
		return 0;
	}
	if (c == "mk1" && argc > 4) { // SEED VERSION SIZE FILE
		Rng r(atoi(argv[1]));
		DbDef db = random_db(r, Ver(atoi(argv[2])), atoi(argv[3]));
		if (argc > 5) db.wide = strtoull(argv[5], nullptr, 0), db.wide_after = argc > 6 ? atoi(argv[6]) : 5, db.pagesize = argc > 7 ? atoi(argv[7]) : db.pagesize; // WIDE AFTER PAGESIZE
		Img img = mk1cd(db);
		write_img(argv[4], img);
		RdDb d = rd1cd(img);
		printf("%s page size %u, %u pages, %zu free, %zu lost\n", ver_name[db.ver], db.pagesize, db.pages, d.free.size(), d.lost.size());
		for (auto &t : d.tables) printf("   %s data=%zu blob=%zu index=%zu\n", t.name.c_str(), t.o[0].data.size(), t.o[1].data.size(), t.o[2].data.size());
		return 0;
	}
	return 2;
}
}
