#include "drv.hh"
#include "util/bitfield.hh"
#include "util/cortex_math.hh"
#include "util/math.hh"
#include "util/overloaded.hh"
#include "util/smallest_integer.hh"
namespace M = MathTools;

enum class E8 : uint8_t {};
enum class E16 : uint16_t {};
enum class E32 : uint32_t {};
enum P16 : uint16_t {};
// wide numbers: four 16-bit digits, least significant first
static uint64_t w64(const Args &a, size_t at)
{
	uint64_t x = 0;
	for (int i = 3; i >= 0; i--)
		x = x << 16 | (uint64_t)a[at + i];
	return x;
}
template<unsigned long long... N>
static void sizes(Out &r, size_t i, std::integer_sequence<unsigned long long, N...>)
{
	size_t s[] = {sizeof(typename SmallestUnsignedInt<N>::type)...};
	bool u[] = {std::is_unsigned_v<typename SmallestUnsignedInt<N>::type>...};
	unsigned long long v[] = {N...};
	r.wide(v[i]);
	r << s[i] << u[i];
}
template<long long A, long long B>
struct Sg {
	static void show(Out &r)
	{
		using T = typename SmallestSignedInt<A, B>::type;
		r.wide((unsigned long long)(A < 0 ? -(A + 1) : A));
		r.wide((unsigned long long)(B < 0 ? -(B + 1) : B));
		r << sizeof(T) << std::is_signed_v<T>;
	}
};
template<class... S>
struct SgList {
	static constexpr size_t n = sizeof...(S);
	static void show(Out &r, size_t i)
	{
		void (*f[])(Out &) = {S::show...};
		f[i](r);
	}
};
template<unsigned... N>
static void log2s(Out &r, size_t i, std::integer_sequence<unsigned, N...>)
{
	int v[] = {(int)M::Log2<N>::val...};
	unsigned n[] = {N...};
	r.wide(n[i]);
	r << v[i];
}
constexpr auto I64MAX = 9223372036854775807ll;
using Signeds = SgList<Sg<0, 0>, Sg<0, 127>, Sg<-128, 127>, Sg<0, 128>, Sg<-129, 0>, Sg<-128, 128>, Sg<0, 32767>, Sg<-32768, 32767>, Sg<-32769, 5>, Sg<-1, 32768>, Sg<-5, -3>, Sg<-200, -150>, Sg<200, 300>, Sg<-2147483647 - 1, 2147483647>, Sg<-2147483649ll, 0>,
					   Sg<0, 2147483648ll>, Sg<0, I64MAX>, Sg<-I64MAX - 1, I64MAX>, Sg<-I64MAX - 1, 0>, Sg<-1, 1ll << 40>, Sg<100, 128>, Sg<-129, 127>, Sg<-32769, 32767>, Sg<-2147483649ll, 2147483647ll>>;
using Unsigneds = std::integer_sequence<unsigned long long, 0, 1, 127, 128, 255, 256, 32767, 65535, 65536, 0x7fffffff, 0xffffffff, 0x100000000, 1ull << 63, ~0ull>;
using Logs = std::integer_sequence<unsigned, 1, 2, 3, 4, 5, 7, 8, 9, 1000, 1023, 1024, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff>;
template<class T, size_t N>
static void diffs(Out &r, std::array<T, N> d)
{
	for (auto x : d)
		r << x;
}
struct Bits : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "np2") {
			uint64_t x = w64(a, 1);
			switch (a[0]) {
				case 8: r.wide(M::next_power_of_2((uint8_t)x)); break;
				case 16: r.wide(M::next_power_of_2((uint16_t)x)); break;
				case 32: r.wide(M::next_power_of_2((uint32_t)x)); break;
				case 64: r.wide(M::next_power_of_2((uint64_t)x)); break;
			}
		} else if (op == "log2")
			r << M::log2_floor((unsigned)w64(a, 0));
		else if (op == "ispow")
			r << M::is_power_of_2((unsigned)w64(a, 0));
		else if (op == "slog2")
			log2s(r, a[0], Logs{});
		else if (op == "ipow")
			r.wide(M::ipow((unsigned)w64(a, 1), (unsigned)a[0]));
		else if (op == "range")
			r << (a[0] == 8 ? M::bipolar_type_range((int8_t)a[1]) : a[0] == 16 ? M::bipolar_type_range((int16_t)a[1]) : M::bipolar_type_range((int32_t)a[1]));
		else if (op == "wrapm") { // Max, type, value
			uint32_t v = (uint32_t)a[2];
			auto w = [&]<uint32_t X>() { r << (a[1] == 8 ? M::wrap<X, uint8_t>((uint8_t)v) : a[1] == 16 ? M::wrap<X, uint16_t>((uint16_t)v) : a[1] == 31 ? M::wrap<X, int>((int)v) : M::wrap<X>(v)); };
			switch (a[0]) {
				case 1: w.operator()<1>(); break;
				case 5: w.operator()<5>(); break;
				case 8: w.operator()<8>(); break;
				case 100: w.operator()<100>(); break;
				case 200: w.operator()<200>(); break;
			}
		} else if (op == "wrap")
			r << (a[0] == 8 ? M::wrap<int8_t>((int8_t)a[1], (int8_t)a[2], (int8_t)a[3]) : a[0] == 16 ? M::wrap<int16_t>((int16_t)a[1], (int16_t)a[2], (int16_t)a[3]) : M::wrap((int)a[1], (int)a[2], (int)a[3]));
		else if (op == "between") {
			auto show = [&](auto o) {
				r << o.has_value();
				if (o)
					r << *o;
			};
			if (a[0] == 0)
				show(M::between((int)a[1], (int)a[2], (int)a[3]));
			else
				show(M::between((int16_t)a[1], (int16_t)a[2], (int16_t)a[3]));
		} else if (op == "constrain")
			r << (a[0] == 0 ? M::constrain((int)a[1], (int)a[2], (int)a[3]) : a[0] == 1 ? (int)M::constrain((float)a[1], (float)a[2], (float)a[3]) : M::constrain((int16_t)a[1], (int16_t)a[2], (int16_t)a[3]));
		else if (op == "minmax") {
			if (a[0] == 0)
				r << M::min((int)a[1], (int)a[2]) << M::max((int)a[1], (int)a[2]);
			else
				r << M::min((float)a[1], (float)a[2]) << M::max((float)a[1], (float)a[2]);
		} else if (op == "diff") {
			if (a[0] == 0)
				r << M::abs_diff((int)a[1], (int)a[2]) << M::diff((int)a[1], (int)a[2]);
			else if (a[0] == 1)
				r << M::abs_diff((uint8_t)a[1], (uint8_t)a[2]) << M::diff((uint8_t)a[1], (uint8_t)a[2]);
			else if (a[0] == 2)
				r << M::abs_diff((uint32_t)a[1], (uint32_t)a[2]) << M::diff((uint32_t)a[1], (uint32_t)a[2]);
			else if (a[0] == 4)
				r << M::abs_diff(a[1] / 65536.f, a[2] / 65536.f) * 65536. << M::diff(a[1] / 65536.f, a[2] / 65536.f) * 65536.;
			else
				r << M::abs_diff((float)a[1], (float)a[2]) << M::diff((float)a[1], (float)a[2]);
			if (a[0] == 4) // small fractions
				r << M::f_abs((float)(a[1] - a[2]) / 65536.f) * 65536.;
			else
				r << M::f_abs((float)(a[1] - a[2]));
		} else if (op == "plateau") {
			r << M::plateau((int32_t)a[0], (uint32_t)a[1], (int32_t)a[2]);
		} else if (op == "plateaus") { // fixed widths and centres
			int v = (int)a[1];
			switch (a[0]) {
				case 0: r << M::plateau<60>(v); break;
				case 1: r << M::plateau<60, 100>(v); break;
				case 2: r << M::plateau<60, int>(v, 100); break;
				case 3: r << M::plateau<7, -3>(v); break;
				case 4: r << M::plateau<7, int>(v, -3); break;
				case 5: r << M::plateau<0>(v); break;
			}
		} else if (op == "swap16") {
			r.wide(M::swap_bytes16((uint16_t)a[0]));
		} else if (op == "swap32") {
			r.wide(M::swap_bytes32((uint32_t)w64(a, 0)));
		} else if (op == "combine") {
			r.wide(M::swap_bytes_and_combine((uint16_t)a[0], (uint16_t)a[1]));
		} else if (op == "ssat")
			r << M::signed_saturate((int32_t)a[0], (uint32_t)a[1]);
		else if (op == "usat")
			r << M::unsigned_saturate((int32_t)a[0], (uint32_t)a[1]);
		else if (op == "interp") { // Max, in1, in2, phase
			auto w = [&]<uint32_t X>() { r << M::interpolate<X>((int32_t)a[1], (int32_t)a[2], (int32_t)a[3]); };
			switch (a[0]) {
				case 1: w.operator()<1>(); break;
				case 1000: w.operator()<1000>(); break;
				case 4096: w.operator()<4096>(); break;
				case 65536: w.operator()<65536>(); break;
				case 2147483647: w.operator()<2147483647>(); break;
			}
		} else if (op == "finterp") // in1, in2 in 1/8, phase / 16
			r << M::interpolate(a[0] / 8.f, a[1] / 8.f, a[2] / 16.f) * 128 << M::interpolate3(a[0] / 8.f, a[1] / 8.f, a[2] / 16.f) * 128;
		else if (op == "map")
			r << M::map_value<int, int, int>((int)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4]);
		else if (op == "fmap") // value / 16; results in 1/256
			r << M::map_value(a[0] / 16.f, (float)a[1], (float)a[2], (float)a[3], (float)a[4]) * 256;
		else if (op == "random") {
			if (a[0] == 0)
				r << M::randomNumber<int>((int)a[1], (int)a[2]);
			else if (a[0] == 1)
				r << M::randomNumber<int16_t>((int16_t)a[1], (int16_t)a[2]);
			else
				r << M::randomNumber<float>((float)a[1], (float)a[2]);
		} else if (op == "finite") {
			uint32_t u = (uint32_t)w64(a, 0);
			float f;
			memcpy(&f, &u, 4);
			r << M::is_finite_fastmath(f) << M::is_inf_fastmath(f);
		} else if (op == "fields") { // type, wides
			std::vector<uint32_t> v;
			for (size_t i = 1; i < a.size(); i += 4)
				v.push_back((uint32_t)w64(a, i));
			auto by = [&]<class T>() {
				switch (v.size()) {
					case 1: r.wide((uint64_t)bitfield(T(v[0]))); r.wide(OR({T(v[0])})); r.wide(val(T(v[0]))); break;
					case 2: r.wide((uint64_t)bitfield(T(v[0]), T(v[1]))); r.wide(OR({T(v[0]), T(v[1])})); r.wide(val(T(v[0]))); break;
					case 3: r.wide((uint64_t)bitfield(T(v[0]), T(v[1]), T(v[2]))); r.wide(OR({T(v[0]), T(v[1]), T(v[2])})); r.wide(val(T(v[0]))); break;
					case 4: r.wide((uint64_t)bitfield(T(v[0]), T(v[1]), T(v[2]), T(v[3]))); r.wide(OR({T(v[0]), T(v[1]), T(v[2]), T(v[3])})); r.wide(val(T(v[0]))); break;
				}
			};
			switch (a[0]) {
				case 8: by.operator()<E8>(); break;
				case 16: by.operator()<E16>(); break;
				case 32: by.operator()<E32>(); break;
				case 17: by.operator()<P16>(); break;
				case 0: // plain integers
					r.wide((uint64_t)(v.size() == 1 ? bitfield(v[0]) : v.size() == 2 ? bitfield(v[0], v[1]) : v.size() == 3 ? bitfield(v[0], v[1], v[2]) : bitfield(v[0], v[1], v[2], v[3])));
					r.wide(OR<E32>({}));
					r.wide((uint64_t)bitfield(v[0]));
					break;
			}
		} else if (op == "usize")
			sizes(r, a[0], Unsigneds{});
		else if (op == "ssize")
			Signeds::show(r, a[0]);
		else if (op == "adiff") {
			if (a[0] == 0)
				diffs(r, M::array_adj_diff(std::array<int, 5>{1, 3, 3, -4, 100}));
			else if (a[0] == 1)
				diffs(r, M::array_adj_diff(std::array<int, 2>{7, 5}));
			else
				diffs(r, M::array_adj_diff(std::array<float, 4>{0.f, 1.f, 4.f, 9.f}));
		} else if (op == "visit") {
			std::variant<int, std::string, double> x;
			if (a[0] == 0)
				x = (int)a[1];
			else if (a[0] == 1)
				x = std::string(a[1], 'x');
			else
				x = a[1] / 2.;
			std::visit(overloaded{[&](int i) { r << 0 << i; }, [&](const std::string &s) { r << 1 << s.size(); }, [&](double d) { r << 2 << d * 2; }}, x);
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &)
{
	return std::make_unique<Bits>();
}
