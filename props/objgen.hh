// Generated archives of objects, worlds and cutscene libraries with damaged entries.
#pragma once
#include "damage.hh"
#include "worldgen.hh"
#include "pbt.hh"
using namespace fld;
namespace objgen {
	inline bool damaged; // the latest one
	inline Bytes generated(pbt::Case& k, Ctx& c, bool& world) {
		auto& s = k.src;
		arch::Items items;
		uint32_t n = 0;
		unsigned style = static_cast<unsigned>(s.below(8));
		auto kind = s.weighted({6, 4, 1, 1});
		if (kind == 1) {
			world = true;
			bool wide = !c.save && !c.g2() && s.chance(1, 4);
			auto w = wld::world(s, c, wide);
			if (wide) style |= 16;
			items = {wld::items(*w, c, s.chance(1, 3), s.chance(1, 3), wide, n)};
			k.log << "world";
		} else if (kind == 2) {
			Gen g {s, c};
			Dump d {c};
			d.next = 1;
			auto cnt = s.len(4);
			d.i32("NumOfItems", static_cast<int>(cnt));
			std::vector<std::shared_ptr<Object>> keep;
			for (size_t i = 0; i < cnt; ++i) keep.push_back(g.build(T::zCCSBlock)), d.put("%", keep.back().get());
			arch::Item it;
			it.k = arch::OBJ, it.name = "%", it.s = "zCCSLib", it.kids = d.out;
			items = {it}, n = d.next;
			k.log << "library";
		} else {
			Gen g {s, c};
			auto o = g.build(s.pick(classes()).type);
			Dump d {c};
			d.put("%", o.get());
			if (kind == 3) { auto o2 = g.build(s.pick(classes()).type); d.put("%", o2.get()); }
			items = d.out, n = d.next;
			k.log << class_of(o->get_object_type()).name;
		}
		k.log << " " << describe(c) << ":";
		auto hits = s.below(5);
		damaged = hits > 0;
		for (size_t i = 0; i < hits; ++i) dmg::items(s, items, k.log);
		return arch::encode(c.fmt, c.save, items, n, style);
	}
}
