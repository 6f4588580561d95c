#include "drv.hh"
#include "util/geometry.hh"

template<class T>
struct P {
	T x, y;
};
template<class T>
bool poly(const Args &a, long long scale)
{
	size_t n = (a.size() - 1) / 2;
	std::unique_ptr<P<T>[]> p(new P<T>[n]);
	for (size_t i = 0; i < n; i++) {
		p[i].x = (T)a[1 + 2 * i] / (T)scale;
		p[i].y = (T)a[2 + 2 * i] / (T)scale;
	}
	return is_poly_concave<P<T>>(std::span<const P<T>>(p.get(), n));
}
struct O : Obj {
	void op(const std::string &op, const Args &a, Out &r) override
	{
		if (op == "rects") {
			RectC x{(int)a[0], (int)a[1], (int)a[2], (int)a[3]}, y{(int)a[4], (int)a[5], (int)a[6], (int)a[7]};
			r << x.x_intersects(y) << x.y_intersects(y) << x.is_intersecting(y);
			r << y.x_intersects(x) << y.y_intersects(x) << y.is_intersecting(x);
		} else if (op == "rectc") {
			RectC x{(int)a[0], (int)a[1], (int)a[2], (int)a[3]};
			r << x.width() << x.height() << x.center_x() << x.center_y();
		} else if (op == "rect") {
			Rect x{(int)a[0], (int)a[1], (int)a[2], (int)a[3]};
			r << x.right() << x.bottom() << x.center_x() << x.center_y();
		} else if (op == "poly") {
			switch (a[0]) {
				case 0: r << poly<int>(a, 1); break;
				case 1: r << poly<uint8_t>(a, 1); break;
				case 2: r << poly<int16_t>(a, 1); break;
				case 3: r << poly<float>(a, 64); break;
				case 4: r << poly<double>(a, 64); break;
				case 5: r << poly<int64_t>(a, 1); break;
				default: harness_error("type");
			}
		} else
			harness_error(op);
	}
};
std::unique_ptr<Obj> make(const Args &) { return std::make_unique<O>(); }
