// Entries of a save game, for generating and dumping.
#pragma once
#include "fields.hh"
#include <zenkit/SaveGame.hh>
namespace fld {
// Entries of SAVEDAT.SAV as documented.
template <class V> inline void visit_state(V& v, SaveState& o) {
	v.i32("day", o.day), v.i32("hour", o.hour), v.i32("min", o.minute);
	v.count("NumOfEntries", o.infos, 4);
	for (auto& i : o.infos) v.boolean("Told", i.told), v.str("InstName", i.name);
	v.count("NumOfEntries", o.missions, 3);
	for (auto& m : o.missions) {
		v.str("name", m.name), v.i32("ID", m.id), v.boolean("Av", m.available);
		int none = 0;
		if constexpr (!V::gen) v.i32("NumInList", none);
		v.i32("StatusIndex", m.status_index);
	}
	v.count("LOGMANAGERTOPICCOUNT", o.log, 3);
	for (auto& t : o.log) {
		v.str("TOPICDESCRIPTION", t.description), v.enm("TOPICSECTION", t.section, 2), v.enm("TOPICSTATUS", t.status, 5);
		v.count("LOGTOPICENTRYCOUNT", t.entries, 3);
		if constexpr (!V::gen) v.count("LOGMANAGERENTRYCOUNT", t.entries, 3);
		for (auto& e : t.entries) v.str("ENTRYDESCRIPTION", e);
	}
	v.obj("%", o.cutscene_manager, {T::oCCSManager});
	v.count("numSymbols", o.symbols, 5);
	for (size_t i = 0; i < o.symbols.size(); ++i) {
		auto& y = o.symbols[i];
		v.str(num("symName", i), y.name);
		if (!v.c.g2()) {
			if constexpr (V::gen) y.values.resize(1);
			v.i32(num("symValue", i), y.values[0]);
		} else {
			v.count(num("symName", i) + "cnt", y.values, 4);
			for (size_t j = 0; j < y.values.size(); ++j) v.i32(num("symValue", i) + num("_", j), y.values[j]);
		}
	}
	if constexpr (V::gen) {
		bool sparse = v.s.flip();
		for (int i = 0, n = v.c.g2() ? 66 : 42; i < n; ++i) for (int j = 0; j < n; ++j) o.guild_attitudes[i][j] = sparse && !v.s.chance(1, 50) ? 0 : v.s.u8();
	} else
		v.raw("guildTable", [&](Out& b) { for (int i = 0, n = v.c.g2() ? 66 : 42; i < n; ++i) for (int j = 0; j < n; ++j) b.u8(o.guild_attitudes[i][j]); });
}
}
