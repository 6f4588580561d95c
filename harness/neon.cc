#include "drv.hh"
#include "util/soft_neon.hh"

// three registers of four lanes, three of two; values in 1/8 in, 1/64 out
struct Neon : Obj {
	float32x4_t q[3]{};
	float32x2_t d[3]{};
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "dupq")
			q[a[0]] = vdupq_n_f32(a[1] / 8.f);
		else if (op == "load") {
			float x[4] = {a[1] / 8.f, a[2] / 8.f, a[3] / 8.f, a[4] / 8.f};
			q[a[0]] = vld1q_f32(x);
		} else if (op == "mul")
			q[a[0]] = vmulq_f32(q[a[1]], q[a[2]]);
		else if (op == "mla")
			q[a[0]] = vmlaq_f32(q[a[1]], q[a[2]], q[a[3]]);
		else if (op == "sub")
			q[a[0]] = vsubq_f32(q[a[1]], q[a[2]]);
		else if (op == "max")
			q[a[0]] = vmaxq_f32(q[a[1]], q[a[2]]);
		else if (op == "low")
			d[a[0]] = vget_low_f32(q[a[1]]);
		else if (op == "high")
			d[a[0]] = vget_high_f32(q[a[1]]);
		else if (op == "add")
			d[a[0]] = vpadd_f32(d[a[1]], d[a[2]]);
		else if (op == "lane")
			r << vget_lane_f32(d[a[0]], (unsigned)a[1]) * 64 << std::as_const(d[a[0]])[a[1]] * 64;
		else if (op == "put")
			q[a[0]][a[1]] = a[2] / 8.f;
		else if (op == "clip") {
			for (float &x : q[a[0]].v)
				x = (float)((long)(x * 8) % 800) / 8;
			for (auto &e : d)
				for (float &x : e.v)
					x = (float)((long)(x * 8) % 800) / 8;
		} else if (op == "get")
			for (int k = 0; k < 3; k++) // all of them: nothing else may change
				for (int i = 0; i < 4; i++)
					r << std::as_const(q[(a[0] + k) % 3])[i] * 64;
		else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &)
{
	return std::make_unique<Neon>();
}
