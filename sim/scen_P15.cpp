#include "guest.hpp"
#include "interpose.hpp"
#include <libloong/native/heap.hpp>
#include <libloong/machine_vmcall.hpp>
#include <optional>
using namespace gst; using namespace loongarch;
// Host-made guest objects against ordinary C++ ones, with the guest heap running out.
// ops:  F HOLES.. (up to 3 sizes)  the heap is filled before the next op except for holes of these sizes      K N  only N more chunk records until the next op is done
//       n SLOT KIND V W   a new object       d SLOT   destroyed      o SLOT OP V W X   an operation on the object     v SLOT SLOT2  move assignment     g  guest code reads every object
namespace {
enum Kind { STR, VINT, VSTR, VVEC, RSTR, RVINT, RVSTR, HVEC, HSTR, NKIND };
const char* kname[] = {"string", "vector<int>", "vector<string>", "vector<vector<int>>", "Rust String", "Rust Vec<i32>", "Rust Vec<String>", "host-held vector", "host-held string"};
using VI = std::vector<i32>; using VS = std::vector<std::string>; using VV = std::vector<VI>;
std::string text(u64 seed, u64 n) { std::string s(n, 0); Rng r(seed); for (auto& c : s) c = char(r.below(256)); return s; }
VI ints(u64 seed, u64 n) { VI v(n); Rng r(seed); for (auto& x : v) x = i32(r.next()); return v; }
VS texts(u64 seed, u64 n) { VS v; Rng r(seed); for (u64 i = 0; i < n; i++) v.push_back(text(r.next(), r.chance(1, 2) ? r.below(16) : r.below(60))); return v; }
struct World { Machine& m; const u8* mem; u64 base, end; Ctx& ctx; std::vector<u64> reach; bool limited = false, failed = false;
	u64 rd(u64 a) { u64 v; memcpy(&v, mem + a, 8); return v; }
	u64 own(u64 ptr, u64 need, const char* what) { // a piece of guest heap that belongs to an object
		u64 n = m.arena().size(ptr); ctx.check(ptr >= base && ptr < end && n > 0, "dangling", fmt("%s lies at %llx, which is not an allocation", what, (long long)ptr)); ctx.check(n >= need, "too-small", fmt("%s of %llu bytes lies in an allocation of %llu", what, (long long)need, (long long)n)); reach.push_back(ptr); return n; }
	void bad(const char* what, const std::string& d) { ctx.fail("wrong-value", std::string(what) + ": " + d); }
	// what guest code finds
	void cpp_string(u64 at, const std::string& want, const char* what) {
		u64 p = rd(at), n = rd(at + 8); if (n != want.size()) bad(what, fmt("length %llu instead of %zu", (long long)n, want.size()));
		if (n <= 15) { if (p != at + 16) ctx.fail("layout", fmt("%s at %llx of length %llu points to %llx, not into itself", what, (long long)at, (long long)n, (long long)p)); }
		else { u64 cap = rd(at + 16); ctx.check(cap >= n, "layout", fmt("%s: capacity %llu below length %llu", what, (long long)cap, (long long)n)); own(p, cap + 1, what); }
		if (memcmp(mem + p, want.data(), n)) bad(what, "other characters"); ctx.check(mem[p + n] == 0, "layout", std::string(what) + ": not terminated by zero"); }
	void rust_string(u64 at, const std::string& want, const char* what) { u64 cap = rd(at), p = rd(at + 8), n = rd(at + 16); if (n != want.size()) bad(what, fmt("length %llu instead of %zu", (long long)n, want.size())); ctx.check(cap >= n, "layout", std::string(what) + ": capacity below length"); if (p) own(p, std::max<u64>(cap, 1), what); if (n && memcmp(mem + p, want.data(), n)) bad(what, "other characters"); }
	u64 cpp_vector(u64 b, u64 e, u64 c, u64 count, u64 esz, const char* what) { if (e - b != count * esz) bad(what, fmt("%llu bytes of elements instead of %llu", (long long)(e - b), (long long)(count * esz))); ctx.check(c >= e, "layout", fmt("%s: capacity ends at %llx before its elements at %llx", what, (long long)c, (long long)e)); if (b) own(b, std::max<u64>(c - b, 1), what); else ctx.check(!count && c == b, "layout", std::string(what) + ": no storage"); return b; }
	void cpp_ints(u64 at, const VI& want, const char* what) { u64 b = cpp_vector(rd(at), rd(at + 8), rd(at + 16), want.size(), 4, what); if (!want.empty() && memcmp(mem + b, want.data(), want.size() * 4)) bad(what, "other elements"); }
};
struct Obj { Kind kind; virtual ~Obj() {} virtual void verify(World&) = 0; virtual bool op(World&, const Op&) = 0; virtual void destroy(Machine&) {} virtual bool take(Obj&) { return false; } virtual u64 guest_hash(World&) { return 0; } virtual u64 guest_addr() { return 0; } virtual int guest_fn() { return -1; } virtual bool pass(World&, u64, u64&, bool) { return false; } virtual u64 shape() { return 0; } };
u64 fnv(const u8* p, u64 n) { u64 h = 7; for (u64 i = 0; i < n; i++) h = h * 33 + p[i]; return h; }
// run an operation that only fails for lack of memory; say whether it succeeded
template <typename F> bool attempt(World& w, F&& f) { try { f(); return true; } catch (const std::bad_alloc&) { w.ctx.count("exc:bad_alloc"); } catch (const MachineException& e) { w.ctx.count(fmt("exc:%d", e.type())); if (e.type() != OUT_OF_MEMORY && !(e.type() == INVALID_PROGRAM && w.limited)) w.ctx.fail("wrong-exception", fmt("%s (%llx) for lack of memory", e.what(), (long long)e.data())); } w.failed = true; return false; }
template <typename F> void must_be_out_of_range(World& w, F&& f) { try { f(); } catch (const std::out_of_range&) { return; } w.ctx.fail("no-range-error", "an index behind the end was accepted"); }

// what is read through a const object
template <typename V, typename M> void const_reads(World& w, const V& v, const M& model, const char* what) { if (v.size() != model.size() || v.empty() != model.empty()) w.bad(what, "size"); if (model.empty()) return; const Machine& cm = w.m; auto* a = v.as_array(cm); for (u64 i : {u64(0), u64(model.size() / 2), u64(model.size() - 1)}) { auto same = [&](const auto& e) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(e)>>) return e == model[i]; else return e.to_string(cm) == model[i]; }; if (!same(v.at(w.m, i)) || !same(a[i])) w.bad(what, "an element read through a const object"); } must_be_out_of_range(w, [&] { (void)v.at(w.m, model.size()); }); }

struct Str : Obj { std::optional<ScopedCppString> o; std::string model;
	void verify(World& w) override { if (!model_gone) { w.own(o->address(), 32, "string object"); w.cpp_string(o->address(), model, "string"); if ((*o)->to_string(w.m) != model || (*o)->to_view(w.m) != model || (*o)->size() != model.size()) w.bad("string", "to_string"); } }
	bool model_gone = false;
	bool op(World& w, const Op& p) override { std::string s = text(p.arg(2), p.arg(3)); switch (p.arg(1) % 6) {
		case 0: case 1: if (!attempt(w, [&] { *o = std::string_view(s); })) { if (model_gone && o->address()) { model.clear(); model_gone = false; } return false; } model = s; model_gone = false; return true;
		case 2: if (model_gone) return true; if (!attempt(w, [&] { (*o)->set_string(w.m, o->address(), s.data(), s.size(), p.arg(4) & 1); })) return false; model = s; return true;
		case 3: { if (model_gone) return true; u64 a = std::min<u64>(p.arg(4), model.size()), n = std::min<u64>(p.arg(3), model.size() - a); std::string t = model.substr(a, n); if (!attempt(w, [&] { *o = (*o)->to_view(w.m).substr(a, n); })) return false; model = t; return true; } // a part of itself
		case 4: { std::optional<GuestStdString> t; if (!attempt(w, [&] { t.emplace(w.m, s); })) return false; if (!attempt(w, [&] { *o = *t; })) { t->free(w.m); return false; } model = s; model_gone = false; return true; }
		default: if (model_gone) return true; { const GuestStdString& self = **o; *o = self; } return true; } }
	bool take(Obj& b) override { auto& x = (Str&)b; *o = std::move(*x.o); if (&x != this) { model = x.model; model_gone = x.model_gone; x.model_gone = true; } return true; }
	bool pass(World& w, u64 fn, u64& h, bool by_value) override { if (!by_value) { h = w.m.vmcall<u64>(fn, *o); return true; } // the object itself, or a host-made string, as the argument of a call
		std::optional<GuestStdString> t; if (!attempt(w, [&] { t.emplace(w.m, model); })) return false; if (model.size() & 1) { u64 saved = w.m.cpu.reg(3); std::string odd(1 + model.size() % 40, 'x'); h = w.m.vmcall<u64>(fn, *t, odd); w.m.cpu.reg(3) = saved; } else h = w.m.vmcall<u64>(fn, *t); t->free(w.m); return true; }
	u64 guest_addr() override { return model_gone ? 0 : o->address(); } int guest_fn() override { return 0; } u64 guest_hash(World&) override { return fnv((const u8*)model.data(), model.size()); } u64 shape() override { return model.size(); }
};
template <typename S, typename V, typename M> struct Vec : Obj { std::optional<S> o; M model; bool gone = false; };
template <typename VecT, typename M, typename Self> bool shape_ops(World& w, const Op& p, VecT& v, M& model, Self&& fresh, bool& done) { // operations that do not depend on the element type
	done = true;
	switch (p.arg(1) % 12) {
	case 0: if (model.empty()) { must_be_out_of_range(w, [&] { v.pop_back(w.m); }); return true; } v.pop_back(w.m); model.pop_back(); return true;
	case 1: if (p.arg(4) % 3 == 0) { v.clear(w.m); model.clear(); } return true;
	case 2: { u64 n = p.arg(3) % 40; if (p.arg(4) % 16 == 0) n = model.size(); if (!attempt(w, [&] { v.resize(w.m, n); })) return false; model.resize(n); return true; }
	case 3: { u64 n = p.arg(4) % 40 == 0 ? (1ull << 61) + p.arg(3) : p.arg(4) % 20 == 0 ? ~0ull / 24 + p.arg(3) % 3 : p.arg(3) % 60; u64 cap = v.capacity(); bool ok = attempt(w, [&] { v.reserve(w.m, n); }); if (n > (1ull << 50)) { w.ctx.check(!ok, "impossible-size", "reserve of more elements than there are addresses succeeded"); w.failed = false; return false; } if (ok) w.ctx.check(v.capacity() >= n && v.capacity() >= cap, "layout", "reserve did not give the capacity"); return ok; }
	case 4: if (p.arg(4) % 4 == 0) { v.free(w.m); model.clear(); } return true;
	case 5: must_be_out_of_range(w, [&] { (void)v.at(w.m, model.size() + p.arg(3) % 3); }); must_be_out_of_range(w, [&] { (void)v.address_at(model.size()); }); return true;
	default: done = false; return true; }
}
struct VInt : Vec<ScopedCppVector<i32>, GuestStdVector<i32>, VI> {
	void verify(World& w) override { if (gone) return; w.own(o->address(), 24, "vector object"); w.cpp_ints(o->address(), model, "vector<int>"); auto& v = **o; if (v.size() != model.size() || v.empty() != model.empty() || v.to_vector(w.m) != model) w.bad("vector<int>", "to_vector"); if (!model.empty()) for (u64 i : {u64(0), model.size() / 2, model.size() - 1}) if (v.at(w.m, i) != model[i]) w.bad("vector<int>", "at"); VI it; for (auto i = v.begin(w.m); i != v.end(w.m); ++i) it.push_back(*i); if (it != model) w.bad("vector<int>", "iteration"); const_reads(w, **o, model, "vector<int>"); }
	bool op(World& w, const Op& p) override { if (gone) { VI n = ints(p.arg(2), p.arg(3) % 40); if (!attempt(w, [&] { *o = n; })) { if (o->address()) { model.clear(); gone = false; } return false; } model = n; gone = false; return true; }
		bool done; auto& v = **o; bool r = shape_ops(w, p, v, model, 0, done); if (done) return r; VI n = ints(p.arg(2), p.arg(3) % 40);
		switch (p.arg(1) % 12) { case 6: case 7: { i32 x = i32(p.arg(2)); if (!attempt(w, [&] { v.push_back(w.m, x); })) return false; model.push_back(x); return true; } case 8: if (!attempt(w, [&] { v.append(w.m, n.data(), n.size()); })) return false; model.insert(model.end(), n.begin(), n.end()); return true;
			case 9: if (!attempt(w, [&] { *o = n; })) return false; model = n; return true; case 10: if (!attempt(w, [&] { v.assign(w.m, n.data(), n.size()); })) return false; model = n; return true; default: if (!model.empty()) { u64 i = p.arg(4) % model.size(); v.at(w.m, i) = model[i] = i32(p.arg(2)); } return true; } }
	bool take(Obj& b) override { auto& x = (VInt&)b; *o = std::move(*x.o); if (&x != this) { model = x.model; gone = x.gone; x.gone = true; } return true; }
	bool pass(World& w, u64 fn, u64& h, bool) override { h = w.m.vmcall<u64>(fn, *o); return true; }
	u64 guest_addr() override { return gone ? 0 : o->address(); } int guest_fn() override { return 1; } u64 guest_hash(World&) override { return fnv((const u8*)model.data(), model.size() * 4); } u64 shape() override { return gone ? 99 : model.size() * 100 + (*o)->capacity(); }
};
struct VStr : Vec<ScopedCppVector<GuestStdString>, GuestStdVector<GuestStdString>, VS> {
	void verify(World& w) override { w.own(o->address(), 24, "vector object"); u64 a = o->address(), b = w.cpp_vector(w.rd(a), w.rd(a + 8), w.rd(a + 16), model.size(), 32, "vector<string>"); for (u64 i = 0; i < model.size(); i++) w.cpp_string(b + i * 32, model[i], "element of vector<string>"); if ((*o)->to_string_vector(w.m) != model) w.bad("vector<string>", "to_string_vector"); const_reads(w, **o, model, "vector<string>"); }
	bool op(World& w, const Op& p) override { bool done; auto& v = **o; bool r = shape_ops(w, p, v, model, 0, done); if (done) return r; std::string s = text(p.arg(2), p.arg(3));
		switch (p.arg(1) % 12) { case 6: case 7: if (!attempt(w, [&] { v.push_back(w.m, std::string_view(s)); })) return false; model.push_back(s); return true;
			case 8: { std::optional<GuestStdString> t; if (!attempt(w, [&] { t.emplace(w.m, s); })) return false; bool ok = p.arg(4) & 1 ? attempt(w, [&] { v.push_back(w.m, std::move(*t)); }) : attempt(w, [&] { v.push_back(w.m, (const GuestStdString&)*t); }); if (!ok) { t->free(w.m); return false; } model.push_back(s); return true; }
			case 9: case 10: { VS n = texts(p.arg(2), p.arg(3) % 6); std::vector<GuestStdString> g; auto drop = [&] { for (auto& e : g) e.free(w.m); return false; }; for (auto& e : n) { std::optional<GuestStdString> t; if (!attempt(w, [&] { t.emplace(w.m, e); })) return drop(); g.push_back(*t); }
				if (p.arg(1) % 12 == 9) { if (!attempt(w, [&] { v.assign(w.m, g); })) return drop(); model = n; } else { if (!attempt(w, [&] { v.append(w.m, g.data(), g.size()); })) return drop(); model.insert(model.end(), n.begin(), n.end()); } return true; }
			default: if (!model.empty()) { u64 i = p.arg(4) % model.size(); if (!attempt(w, [&] { v.at(w.m, i).set_string(w.m, v.address_at(i), s); })) return false; model[i] = s; } return true; } }
	u64 shape() override { return model.size() * 100 + (*o)->capacity(); }
};
struct VVec : Vec<ScopedCppVector<GuestStdVector<i32>>, GuestStdVector<GuestStdVector<i32>>, VV> {
	void verify(World& w) override { w.own(o->address(), 24, "vector object"); u64 a = o->address(), b = w.cpp_vector(w.rd(a), w.rd(a + 8), w.rd(a + 16), model.size(), 24, "vector<vector<int>>"); for (u64 i = 0; i < model.size(); i++) w.cpp_ints(b + i * 24, model[i], "element of vector<vector<int>>"); }
	bool op(World& w, const Op& p) override { bool done; auto& v = **o; bool r = shape_ops(w, p, v, model, 0, done); if (done) return r; VI n = ints(p.arg(2), p.arg(3) % 20);
		switch (p.arg(1) % 12) { case 6: case 7: case 8: if (!attempt(w, [&] { v.push_back(w.m, n); })) return false; model.push_back(n); return true;
			default: if (!model.empty()) { u64 i = p.arg(4) % model.size(); auto& e = v.at(w.m, i); switch (p.arg(1) % 12) { case 9: if (!attempt(w, [&] { e.push_back(w.m, i32(p.arg(2))); })) return false; model[i].push_back(i32(p.arg(2))); break; case 10: if (!attempt(w, [&] { e.assign(w.m, n); })) return false; model[i] = n; break; default: if (!attempt(w, [&] { e.resize(w.m, n.size()); })) return false; model[i].resize(n.size()); } } return true; } }
	u64 shape() override { return model.size() * 100 + (*o)->capacity(); }
};
struct RStr : Obj { std::optional<ScopedRustString> o; std::string model;
	void verify(World& w) override { w.own(o->address(), 24, "Rust String object"); w.rust_string(o->address(), model, "Rust String"); if ((*o)->to_string(w.m) != model || (*o)->to_view(w.m) != model) w.bad("Rust String", "to_string"); }
	bool op(World& w, const Op& p) override { std::string s = text(p.arg(2), p.arg(3)); switch (p.arg(1) % 3) { case 0: { u64 a = std::min<u64>(p.arg(4), model.size()), n = std::min<u64>(p.arg(3), model.size() - a); std::string t = model.substr(a, n); if (!attempt(w, [&] { (*o)->set_string(w.m, (*o)->to_view(w.m).substr(a, n)); })) return false; model = t; return true; }
		default: if (!attempt(w, [&] { (*o)->set_string(w.m, s.data(), s.size(), p.arg(4) & 1); })) return false; model = s; return true; } } u64 shape() override { return model.size(); }
};
struct RInt : Obj { std::optional<ScopedRustVector<i32>> o; VI model;
	void verify(World& w) override { w.own(o->address(), 24, "Rust Vec object"); u64 a = o->address(), n = w.rd(a), q = w.rd(a + 8), c = w.rd(a + 16); if (n != model.size()) w.bad("Rust Vec", "length"); w.ctx.check(c >= n, "layout", "Rust Vec: capacity below length"); if (q) w.own(q, std::max<u64>(1, c * 4), "Rust Vec"); if (n && memcmp(w.mem + q, model.data(), n * 4)) w.bad("Rust Vec", "other elements"); if ((*o)->to_vector(w.m) != model) w.bad("Rust Vec", "to_vector"); const_reads(w, **o, model, "Rust Vec"); }
	bool op(World& w, const Op& p) override { VI n = ints(p.arg(2), p.arg(3) % 40); switch (p.arg(1) % 4) { case 0: must_be_out_of_range(w, [&] { (void)(*o)->at(w.m, model.size()); }); return true; case 1: if (!model.empty()) { u64 i = p.arg(4) % model.size(); (*o)->at(w.m, i) = model[i] = i32(p.arg(2)); } return true; case 2: if (p.arg(4) % 4 == 0) { (*o)->free(w.m); model.clear(); } return true; default: if (!attempt(w, [&] { (*o)->assign(w.m, n); })) return false; model = n; return true; } } u64 shape() override { return model.size(); }
};
struct RVStr : Obj { std::optional<ScopedRustVector<GuestRustString>> o; VS model;
	void verify(World& w) override { w.own(o->address(), 24, "Rust Vec object"); u64 a = o->address(), n = w.rd(a), q = w.rd(a + 8), c = w.rd(a + 16); if (n != model.size()) w.bad("Rust Vec<String>", "length"); w.ctx.check(c >= n, "layout", "Rust Vec: capacity below length"); if (q) w.own(q, std::max<u64>(1, c * 24), "Rust Vec<String>"); for (u64 i = 0; i < n; i++) w.rust_string(q + i * 24, model[i], "element of Rust Vec<String>"); const_reads(w, **o, model, "Rust Vec<String>"); }
	bool op(World& w, const Op& p) override { std::string s = text(p.arg(2), p.arg(3)); switch (p.arg(1) % 4) { case 0: if (p.arg(4) % 4 == 0) { (*o)->free(w.m); model.clear(); } return true;
		case 1: { VS n = texts(p.arg(2), p.arg(3) % 6); std::vector<GuestRustString> g; auto drop = [&] { for (auto& e : g) e.free(w.m); return false; }; for (auto& e : n) { std::optional<GuestRustString> t; if (!attempt(w, [&] { t.emplace(w.m, e); })) return drop(); g.push_back(*t); } if (!attempt(w, [&] { (*o)->assign(w.m, g); })) return drop(); model = n; return true; }
		default: if (!model.empty()) { u64 i = p.arg(4) % model.size(); if (!attempt(w, [&] { (*o)->at(w.m, i).set_string(w.m, s); })) return false; model[i] = s; } return true; } } u64 shape() override { return model.size(); }
};
struct HVec : Obj { GuestStdVector<GuestStdString> v; VS model;
	void verify(World& w) override { w.ctx.check(!bad_rest, "moved-from", "a vector that was moved from is not empty"); u64 b = w.cpp_vector(v.ptr_begin, v.ptr_end, v.ptr_capacity, model.size(), 32, "host-held vector<string>"); for (u64 i = 0; i < model.size(); i++) w.cpp_string(b + i * 32, model[i], "element of host-held vector<string>"); }
	bool op(World& w, const Op& p) override { bool done; bool r = shape_ops(w, p, v, model, 0, done); if (done) return r; std::string s = text(p.arg(2), p.arg(3)); if (p.arg(1) % 12 < 10) { if (!attempt(w, [&] { v.push_back(w.m, std::string_view(s)); })) return false; model.push_back(s); } else if (!model.empty()) { u64 i = p.arg(4) % model.size(); if (!attempt(w, [&] { v.at(w.m, i).set_string(w.m, v.address_at(i), s); })) return false; model[i] = s; } return true; }
	bool take(Obj& b) override { // passing it on leaves an empty vector behind
		auto& x = (HVec&)b; if (&x == this || v.data() || !model.empty()) { GuestStdVector<GuestStdString> t(std::move(v)); bad_rest = bad_rest || v.data() || v.size() || v.capacity(); new (&v) GuestStdVector<GuestStdString>(std::move(t)); bad_rest = bad_rest || t.data() || t.size() || t.capacity(); return true; }
		new (&v) GuestStdVector<GuestStdString>(std::move(x.v)); bad_rest = bad_rest || x.v.data() || x.v.size() || x.v.capacity(); model = x.model; x.model.clear(); return true; }
	bool bad_rest = false;
	void destroy(Machine& m) override { v.free(m); } u64 shape() override { return model.size() * 100 + v.capacity(); }
};
struct HStr : Obj { GuestStdString v; std::string model;
	void verify(World& w) override { if (v.size() != model.size()) w.bad("host-held string", "length"); if (v.size() > 15) { w.own(v.ptr, v.capacity + 1, "host-held string"); w.ctx.check(v.capacity >= v.size(), "layout", "host-held string: capacity"); w.ctx.check(w.mem[v.ptr + v.size()] == 0, "layout", "host-held string: not terminated"); } if (v.to_string(w.m) != model || v.to_string(w.m, model.size()) != model) w.bad("host-held string", "to_string"); }
	bool op(World& w, const Op& p) override { std::string s = text(p.arg(2), p.arg(3)); if (!attempt(w, [&] { v.set_string(w.m, 0, s); })) return false; model = s; return true; } void destroy(Machine& m) override { v.free(m); } u64 shape() override { return model.size(); }
};
std::unique_ptr<Obj> make(World& w, u32 kind, const Op& p) { // null when the heap is exhausted
	std::string s = text(p.arg(2), p.arg(3)); VI n = ints(p.arg(2), p.arg(3) % 50); VS t = texts(p.arg(2), p.arg(3) % 9); std::unique_ptr<Obj> r; bool sized = p.arg(4) & 1;
	bool ok = attempt(w, [&] { switch (kind) {
		case STR: { auto o = std::make_unique<Str>(); o->model = sized ? "" : s; if (sized) o->o.emplace(w.m); else o->o.emplace(w.m, std::string_view(s)); r = std::move(o); break; }
		case VINT: { auto o = std::make_unique<VInt>(); if (sized) { o->model = VI(n.size()); o->o.emplace(w.m, n.size()); } else { o->model = n; o->o.emplace(w.m, n); } r = std::move(o); break; }
		case VSTR: { auto o = std::make_unique<VStr>(); if (sized) { o->model = VS(t.size()); o->o.emplace(w.m, t.size()); } else { o->model = t; o->o.emplace(w.m, t); } r = std::move(o); break; }
		case VVEC: { auto o = std::make_unique<VVec>(); u64 k = sized ? p.arg(3) % 6 : 0; o->model = VV(k); if (sized) o->o.emplace(w.m, std::size_t(k)); else o->o.emplace(w.m); r = std::move(o); break; }
		case RSTR: { auto o = std::make_unique<RStr>(); o->model = s; o->o.emplace(w.m, std::string_view(s)); r = std::move(o); break; }
		case RVINT: { auto o = std::make_unique<RInt>(); if (sized) { o->model = VI(n.size()); o->o.emplace(w.m, n.size()); } else { o->model = n; o->o.emplace(w.m, n); } r = std::move(o); break; }
		case RVSTR: { auto o = std::make_unique<RVStr>(); o->model = t; o->o.emplace(w.m, t); r = std::move(o); break; }
		case HVEC: { auto o = std::make_unique<HVec>(); if (sized) { o->model = VS(t.size()); new (&o->v) GuestStdVector<GuestStdString>(w.m, t.size()); } else { o->model = t; new (&o->v) GuestStdVector<GuestStdString>(w.m, t); } r = std::move(o); break; }
		default: { auto o = std::make_unique<HStr>(); o->model = s; new (&o->v) GuestStdString(w.m, 0, s); r = std::move(o); break; } } });
	if (!ok) return nullptr; r->kind = Kind(kind); return r;
}
bool g_long = false; // plans with strings beyond 64 KB
u64 rlen(Rng& r) { if (g_long && r.chance(1, 6)) return 65536 + r.below(40) - 20; switch (r.below(6)) { case 0: return r.below(4); case 1: return 13 + r.below(6); case 2: return 29 + r.below(6); case 3: return r.below(300); default: return r.below(40); } }
Plan gen(Rng& r, int tier) {
	Plan p; if (r.chance(1, 10)) p.cfg["high"] = 2; p.cfg["heap"] = r.chance(1, 2) ? 8192 : r.chance(1, 2) ? 2048 : 65536; g_long = r.chance(1, 40); if (g_long) p.cfg["heap"] = 1 << 20; int n = r.range(6, tier ? 120 : 70); u32 slots = r.range(1, 6), faults = r.below(4); u32 only = r.chance(1, 2) ? r.below(NKIND) : NKIND;
	for (u32 s = 0; s < slots; s++) p.add("n", {s, only < NKIND ? only : r.below(NKIND), r.next(), rlen(r), r.below(4)});
	for (int i = 0; i < n; i++) {
		if (r.below(10) < faults * 2) { if (r.chance(1, 5)) p.add("K", {r.below(4)}); else { u64 h[3] = {0, 0, 0}; for (auto& x : h) if (r.chance(3, 5)) x = r.chance(1, 2) ? 16 * r.range(1, 5) : 16 * r.range(1, 30); p.add("F", {h[0], h[1], h[2]}); } }
		u32 c = r.below(100); u64 s = r.below(slots);
		if (c < 80) p.add("o", {s, r.next() % 7919, r.next(), rlen(r), r.next() & 0xffff}); else if (c < 87) p.add("d", {s}); else if (c < 92) p.add("v", {s, r.below(slots)}); else if (c < 94) p.add("g"); 
		if (c >= 80 && c < 87 || c >= 97) p.add("n", {s, only < NKIND ? only : r.below(NKIND), r.next(), rlen(r), r.below(4)});
	}
	return p;
}
void exec(const Plan& p, Ctx& ctx) {
	clear_shared(); const u64 heap = std::min<u64>(p.get("heap", 8192), 1 << 20);
	Layout l; l.size = heap > 65536 ? 0x60000 + heap : 0x60000; l.stack = 0x2f000; l.raise(p.get("high")); const u64 base = l.data + 0x10000;
	// guest code that reads a string (pointer, length) or a vector of ints (begin, end): h = 7; h = h * 33 + byte
	using namespace la; std::vector<u32> code; for (int k = 0; k < 2; k++) { code.insert(code.end(), {ld_d(12, 4, 0), ld_d(13, 4, 8), k ? nop() : add_d(13, 12, 13), addi_d(4, 0, 7), addi_d(14, 0, 33), bcc(0, 12, 13, 24), ld_bu(15, 12, 0), mul_d(4, 4, 14), add_d(4, 4, 15), addi_d(12, 12, 1), la::b(-20), ret()}); } code.push_back(stop());
	Box box(code, l); auto& m = *box.m; m.memory.set_exit_address(l.code + 4 * (code.size() - 1)); m.setup_accelerated_heap(base, heap); auto& ar = m.arena(); std::map<u64, std::unique_ptr<Obj>> slots;
	World w{m, box.arena(), base, base + heap, ctx, {}}; std::vector<u64> blockers; bool &limited = w.limited, filled = false; size_t opno = 0;
	auto fill = [&](const Op& o) { if (limited) return; std::vector<u64> holes; for (u64 h : o.a) if (h) { u64 x = ar.malloc(h); if (x) holes.push_back(x); u64 y = ar.malloc(16); if (y) blockers.push_back(y); } for (u64 s : {16384u, 2048u, 256u, 16u}) for (;;) { u64 x = ar.malloc(s); if (!x) break; blockers.push_back(x); } for (u64 x : holes) ar.free(x); filled = true; };
	auto restore = [&] { for (u64 x : blockers) ar.free(x); blockers.clear(); if (limited) ar.set_max_chunks(4000); limited = filled = false; };
	auto verify = [&](const char* after, u64 slot) {
		w.reach.clear(); u64 sh = 0; for (auto& e : slots) if (e.second) { e.second->verify(w); sh += mix(e.second->kind, e.second->shape()); }
		std::sort(w.reach.begin(), w.reach.end()); for (size_t i = 1; i < w.reach.size(); i++) ctx.check(w.reach[i] != w.reach[i - 1], "shared-storage", fmt("after %s: two objects own %llx", after, (long long)w.reach[i]));
		u64 sum = 0; for (u64 a : w.reach) sum += ar.size(a); ctx.check(sum == ar.bytes_used(), "leaked", fmt("after %s (op %zu, slot %llu): %llu bytes of guest heap are in use, the objects own %llu", after, opno, (long long)slot, (long long)ar.bytes_used(), (long long)sum)); ctx.state(sh + ar.bytes_used()); };
	auto drop = [&](u64 s) { auto& o = slots[s]; if (o) { o->destroy(m); o.reset(); } };
	for (auto& o : p.ops) {
		opno++; if (o.k == "F") { if (!filled) fill(o); continue; } if (o.k == "K") { if (!limited) { ar.set_max_chunks(o.arg(0)); limited = true; } continue; }
		u64 s = o.arg(0) % 8; std::string what = o.k; bool fault = filled || limited, ok = true; w.failed = false;
		if (o.k == "n") { drop(s); u32 kind = o.arg(1) % NKIND; what = std::string("making a ") + kname[kind]; slots[s] = make(w, kind, o); ok = slots[s] != nullptr; ctx.count("made"); }
		else if (o.k == "d") { drop(s); ctx.count("destroyed"); }
		else if (o.k == "o") { if (slots[s]) { what = fmt("operation %llu on a %s", (long long)o.arg(1), kname[slots[s]->kind]); try { ok = slots[s]->op(w, o); } catch (const std::exception& e) { ctx.fail("wrong-exception", what + ": " + e.what()); } ctx.count("operations"); } }
		else if (o.k == "v") { auto &a = slots[s], &b = slots[o.arg(1) % 8]; if (a && b && a->kind == b->kind) { a->take(*b); what = "a move assignment"; ctx.count("moves"); } }
		else if (o.k == "g") { restore(); for (auto& e : slots) if (e.second && e.second->guest_addr()) { u64 h = m.vmcall<u64>(l.code + 48 * e.second->guest_fn(), e.second->guest_addr()); ctx.check(h == e.second->guest_hash(w), "guest-sees-other", fmt("guest code reads another value from a %s", kname[e.second->kind])); for (bool by_value : {false, true}) if (e.second->pass(w, l.code + 48 * e.second->guest_fn(), h, by_value)) { ctx.check(h == e.second->guest_hash(w), "guest-sees-other", fmt("guest code reads another value from a %s passed to it", kname[e.second->kind])); ctx.count("passed"); } ctx.count("guest-reads"); } }
		if (!ok) { ctx.count(fault ? "exhausted" : "exhausted-without-filling"); ctx.count(std::string("failed:") + (o.k == "n" ? "construction" : "operation")); } else if (fault) ctx.count("survived-under-pressure");
		restore(); if (w.failed && !fault && o.k != "n") { const u64 room = heap > 65536 ? 800000 : 8192; u64 x = ar.malloc(room); ctx.check(!x, "failed-with-room", what + fmt(": failed although %llu KB of guest heap are free in one piece", (long long)room >> 10)); }
		verify(what.c_str(), s); ctx.ev(o.k.c_str(), ok, ar.bytes_used()); ctx.simtime++; ctx.nontrivial++;
	}
	restore(); for (auto& e : slots) if (e.second) { e.second->destroy(m); e.second.reset(); } ctx.check(ar.bytes_used() == 0, "leaked", fmt("%llu bytes of guest heap are in use after every object was destroyed", (long long)ar.bytes_used()));
}
Register r1({"P15", "objects", "(kinds, sizes and capacities of the live objects, heap use)", "histories of constructing, assigning, growing, shrinking, nesting, moving and destroying host-made guest strings and vectors in both layouts, with the guest heap filled up to a few holes or out of chunk records before an operation; after every operation each object is compared with an ordinary C++ object, its layout is read back from guest memory (also by guest code), and the used part of the guest heap must be exactly what the objects own",
	gen, exec, 150000, 1000000, {"guest datatypes", "native heap"}, {}, {"plain", "asan"}});
} // namespace
