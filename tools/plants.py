# Specifications of the planted bugs; see plant.py.

# ---------------------------------------------------------------- P01
add('P01a', 'P01', [('reverse/core/unary.hpp', 'return seed *(sinh(x)););', 'using std::sqrt;\n             using Eigen::sqrt;\n             return seed * sqrt(f * f - 1.););'),
 ('reverse/core/unary.hpp', '''             return cosh(x);, 
             static_cast<void>(f); 
             using std::sinh;''', '''             return cosh(x);, 
             static_cast<void>(x); 
             using std::sinh;''')],
r'''int main() {
    Var<double> x(-0.7); auto e = bind(ad::cosh(x));
    near(autodiff(e), std::cosh(-0.7), "value"); near(x.get_adj(), std::sinh(-0.7), "cosh'(-0.7)");
    Var<double, vec> v(3); v.get() << 0.5, -1.5, 0.; auto f = bind(sum(ad::cosh(v)));
    autodiff(f); for (int i = 0; i < 3; ++i) near(v.get_adj()(i), std::sinh(v.get()(i)), "vector");
    return bad != 0;
}''', 'a negative argument of cosh', "The derivative of cosh is computed from the cached value as sqrt(f^2-1), which loses the sign of the argument.")

# ---------------------------------------------------------------- P02
add('P02b', 'P02', [('reverse/core/binary.hpp', '''            return (seed / y).sum();
        } else {
            return seed / y;
        },''', '''            return (seed * f).sum() / x;
        } else {
            return seed / y;
        },'''),
 ('reverse/core/binary.hpp', '''        return x / y;, 
        static_cast<void>(x); 
        static_cast<void>(f); ''', '''        return x / y;, 
        static_cast<void>(x); 
        static_cast<void>(y); 
        static_cast<void>(f); ''')],
r'''int main() {
    for (double t : {2., 0., -1.}) {
        Var<double> s(t); Var<double, vec> v(2); v.get() << 4., -8.;
        auto e = bind(sum(s / v)); autodiff(e); near(s.get_adj(), .25 - .125, "ds");
        for (int i = 0; i < 2; ++i) near(v.get_adj()(i), -t / (v.get()(i) * v.get()(i)), "dv");
    }
    return bad != 0;
}''', 'a scalar numerator that is exactly 0, divided by a vector or matrix', 'The adjoint of a broadcast numerator is computed from the quotient by dividing by the numerator: NaN when it is 0.')

add('P02c', 'P02', [('reverse/core/binary.hpp', '''            return (-seed * f / y).sum();''', '''            return -(seed * f).sum() / std::abs(y);''')],
r'''int main() {
    for (double t : {2., -2.}) {
        Var<double> s(t); Var<double, vec> v(2); v.get() << 4., -7.;
        auto e = bind(sum(v / s)); autodiff(e); near(s.get_adj(), 3. / (t * t), "ds");
        for (int i = 0; i < 2; ++i) near(v.get_adj()(i), 1 / t, "dv");
    }
    return bad != 0;
}''', 'a vector divided by a negative scalar', 'The adjoint of a broadcast divisor has the wrong sign for negative divisors.')

# ---------------------------------------------------------------- P03
add('P03a', 'P03', [('reverse/core/if_else.hpp', 'if (cond_expr_.get()) {', 'if (cond_expr_.get() > 0) {')],
r'''int main() {
    Var<double> c(-1.), x(2.), y(3.);
    auto e = bind(if_else(c - 0.5, x * x, y * y * y));
    near(autodiff(e), 4., "value"); near(x.get_adj(), 4., "dx"); near(y.get_adj(), 0., "dy");
    c.get() = 0.5; x.reset_adj(); near(autodiff(e), 27., "value 2"); near(x.get_adj(), 0., "dx 2"); near(y.get_adj(), 27., "dy 2");
    return bad != 0;
}''', 'an if_else whose condition is a negative number, differentiated', 'Evaluation takes the condition as true when it is not zero, differentiation when it is positive: the seed goes to the branch that was not selected.')

add('P03b', 'P03', [('reverse/core/binary.hpp', '        else return x && y;,', '        else return x * y != 0;,')],
r'''int main() {
    Var<double> x(1e-200), y(1e-200); auto e = bind(x && y);
    near(evaluate(e), 1., "both true"); x.get() = 0; near(evaluate(e), 0., "one false"); x.get() = -3.; near(evaluate(e), 1., "true again");
    return bad != 0;
}''', 'scalar operands of && that are non-zero but whose product underflows', 'x && y is computed from the product of the operands.')

# ---------------------------------------------------------------- P04
add('P04a', 'P04', [('reverse/core/binary.hpp', '''            expr_rhs_.beval(rhs_seed);
            expr_lhs_.beval(lhs_seed);''', '''            // operands that share their adjoint: propagate once
            if constexpr (std::is_same_v<left_t, right_t>) {
                if (expr_lhs_.data_adj() == expr_rhs_.data_adj()) {
                    expr_lhs_.beval(lhs_seed + rhs_seed);
                    return;
                }
            }
            expr_rhs_.beval(rhs_seed); 
            expr_lhs_.beval(lhs_seed); ''')],
r'''int main() {
    Var<double, vec> x(2), y(2); x.get() << 1., 2.; y.get() << 3., -1.;
    auto e = bind(norm(x) * norm(y)); near(autodiff(e), 50., "value");
    for (int i = 0; i < 2; ++i) { near(x.get_adj()(i), 2 * x.get()(i) * 10., "dx"); near(y.get_adj()(i), 2 * y.get()(i) * 5., "dy"); }
    Var<double> z(3.); auto f = bind(z * z); autodiff(f); near(z.get_adj(), 6., "z*z");
    return bad != 0;
}''', 'a binary operator whose operands are two reductions of the same type (norm(x)*norm(y), sum(x)-sum(y), ...), which own no adjoint storage', 'Operands with the same adjoint pointer are merged; reductions all have a null adjoint pointer, so the right one gets no derivative.')

add('P04b', 'P04', [('reverse/core/dot.hpp', '''        auto a_radj = util::to_array(lhs_.get().transpose() * this->get_adj());
        rhs_.beval(a_radj);
        lhs_.beval(a_ladj);''', '''        lhs_.beval(a_ladj);
        auto a_radj = util::to_array(lhs_.get().transpose() * this->get_adj());
        rhs_.beval(a_radj);''')],
r'''int main() {
    Var<double, mat> A(2, 2), W(2, 2); A.get() << 1., 2., 3., 4.; Eigen::VectorXd x0(2); x0 << 5., 7.;
    Var<double, vec> x(2); x.get() = x0;
    // the right operand updates A in place; the left one is evaluated before it
    auto e = bind(sum(dot(A, x))); near(autodiff(e), 19. + 43., "value"); near(x.get_adj()(0), 4., "dx0"); near(x.get_adj()(1), 6., "dx1");
    x.reset_adj();
    Var<double, vec> w(2); Var<double, mat> C(2, 2); C.get() << 1., 2., 3., 4.; x.reset_adj();
    auto g = bind(sum((w = x * x, dot(C, w)))); autodiff(g); near(x.get_adj()(0), 40., "placeholder");
    // a placeholder assigned in the left operand and used in the right one
    Var<double, mat> P(2, 2); Var<double, mat> D(2, 2); D.get() << 1., 2., 3., 4.;
    auto h = bind(sum(dot(P = D * D, P * 2.))); autodiff(h);
    Eigen::MatrixXd Q = D.get().array().square().matrix(), one = Eigen::MatrixXd::Ones(2, 2);
    Eigen::MatrixXd dP = 2. * (one * Q.transpose() + Q.transpose() * one);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) near(D.get_adj()(i, j), 2. * D.get()(i, j) * dP(i, j), "assigned left, used right");
    return bad != 0;
}''', 'a matrix product whose left operand assigns a placeholder that the right operand uses', 'The left operand is back-propagated before the right one, so a placeholder it assigns passes on an incomplete derivative.')

# ---------------------------------------------------------------- P05
add('P05a', 'P05', [('reverse/core/binary.hpp', '            a_adj = seed;\n            auto&& rhs_seed', '''            a_adj = seed;
            if constexpr (util::is_scl_v<BinaryNode>) {
                if (a_adj == 0) return;     // nothing to propagate
            }
            auto rhs_seed''')],
r'''int main() {
    Var<double> x(3.), w(0.);
    auto e = bind(((w = x * x) + 1., w * w)); near(autodiff(e), 81., "value"); near(x.get_adj(), 4. * 27., "dx");
    return bad != 0;
}''', 'a placeholder assigned inside an arithmetic expression that itself gets a zero seed (left of a comma), and used later', 'Scalar arithmetic nodes return early for a zero seed, so the assignment inside is never back-propagated.')

add('P05b', 'P05', [('reverse/core/pow.hpp', '            expr_.beval(0.);', '            return;')],
r'''int main() {
    Var<double> x(3.), w(0.);
    auto e = bind(ad::pow<0>(w = x * x) + w * 2.); near(evaluate(e), 19., "value");
    auto f = bind((ad::pow<0>(w = x * x), w * w)); near(autodiff(f), 81., "value 2"); near(x.get_adj(), 108., "dx");
    return bad != 0;
}''', 'a placeholder assigned inside pow<0> and used later', 'pow<0> no longer back-propagates its operand: the placeholder in it keeps the derivative for itself.')

# ---------------------------------------------------------------- P06
add('P06a', 'P06', [('reverse/core/eq.hpp', '        cache_.get_adj() = var_view_.get_adj(); \n        var_view_.reset_adj();', '        cache_.get_adj() = var_view_.get_adj(); \n        if (util::is_scl_v<expr_t>) var_view_.reset_adj();\n        else var_view_.get_adj() -= cache_.get_adj();')],
r'''int main() {
    Var<double, vec> x(2), y(2); x.get() << 2., 3.; y.get() << 1., 1.; Var<double> z(0.); const double inf = std::numeric_limits<double>::infinity();
    auto e = bind(norm(x += y * y)); near(autodiff(e), 25., "value"); near(x.get_adj()(0), 6., "dx"); near(y.get_adj()(1), 16., "dy");
    x.reset_adj(); y.reset_adj(); y.get() << 1., inf; auto f = bind(norm(x /= y)); autodiff(f); near(x.get_adj()(0), 4., "dx of x/1"); near(x.get_adj()(1), 0., "dx of x/inf");
    y.get() << 0.5, 0.; x.reset_adj(); auto g = bind(norm(x += 1. / y)); autodiff(g); yes(x.get_adj()(1) == inf, "infinite adjoint");
    return bad != 0;
}''', 'a vector update whose incoming adjoint is infinite', 'The adjoint of the updated variable is cleared by subtracting it from itself, which leaves NaN when it is infinite.')

add('P06b', 'P06', [('reverse/core/eq.hpp', '        var_view_.get() = cache_.get();\n\n        // copy current seed', '''        if (util::is_scl_v<var_view_t> || (var_view_.get_adj_array() != 0).any()) {
            var_view_.get() = cache_.get();
        }

        // copy current seed'''.replace('var_view_.get_adj_array() != 0).any()', 'Eigen::Map<const Eigen::Array<value_t, Eigen::Dynamic, 1>>(var_view_.data_adj(), var_view_.size()) != 0).any()'))],
r'''int main() {
    Var<double, vec> x(2); x.get() << 2., 3.; Var<double> y(5.), z(0.);
    auto f = bind(z * sum(x += y)); near(autodiff(f), 0., "value"); near(x.get()(0), 2., "x restored"); near(x.get()(1), 3., "x restored");
    near(z.get_adj(), 15., "dz"); auto e = bind(sum(x *= y)); near(autodiff(e), 25., "value 2"); near(x.get()(1), 3., "x restored 2");
    return bad != 0;
}''', 'a vector or matrix update whose total adjoint is zero when it is differentiated', 'The variable is not restored when its adjoint is zero.')

# ---------------------------------------------------------------- P07
add('P07a', 'P07', [('reverse/core/prod.hpp', '                    a_val *= util::to_array(exprs_[idx].get());', '                    util::to_array(this->get()) *= util::to_array(exprs_[0].get());')],
r'''int main() {
    for (int zero = 0; zero < 4; ++zero) {
        std::vector<Var<double>> x(4); for (int i = 0; i < 4; ++i) x[i].get() = i == zero ? 0. : 1. + i;
        auto e = bind(ad::prod(x.begin(), x.end(), [](const Var<double>& v) { return v * 2.; })); near(autodiff(e), 0., "value");
        for (int i = 0; i < 4; ++i) { double w = 2.; for (int j = 0; j < 4; ++j) if (j != i) w *= 2. * x[j].get(); near(x[i].get_adj(), w, "dx"); }
    }
    return bad != 0;
}''', 'a product over a range of expressions with a zero that is not the first', 'After the product without a zero expression was computed, the node value is restored with the first expression instead of the zero one, so earlier expressions get a wrong derivative.')

add('P07b', 'P07', [('reverse/core/prod.hpp', '''                            if (ll != l || kk != k) {''', '''                            if (expr_.get(ll, kk) != 0) {''')],
r'''int main() {
    for (int m = 0; m < 16; ++m) {
        Var<double, vec> x(4); for (int i = 0; i < 4; ++i) x.get()(i) = (m >> i & 1) ? 0. : 1.5 + i;
        auto e = bind(ad::prod(x)); autodiff(e);
        for (int i = 0; i < 4; ++i) { double w = 1.; for (int j = 0; j < 4; ++j) if (j != i) w *= x.get()(j); near(x.get_adj()(i), w, "dx"); }
    }
    return bad != 0;
}''', 'a product of elements at least two of which are zero', 'The partial derivative with respect to a zero element leaves out all zero elements instead of that element.')

# ---------------------------------------------------------------- P08
add('P08a', 'P08', [('reverse/core/log_det.hpp', "        valid_ = (std::isfinite(logdet)) && (ldlt_.info() == Eigen::Success);", "        valid_ = (std::isfinite(logdet)) && ldlt_.isPositive();")],
r'''int main() {
    Var<double, mat> x(2, 2); x.get() << -2., 0.5, 0.5, -3.;
    auto e = bind(log_det<LogDetLDLT>(x)); near(autodiff(e), std::log(5.75), "value");
    Eigen::MatrixXd inv = x.get().inverse(); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) near(x.get_adj()(i, j), inv(j, i), "dx");
    return bad != 0;
}''', 'log_det with LDLT of a negative definite matrix', 'Negative definite matrices get the right log determinant but no gradient.')

add('P08b', 'P08', [('reverse/core/det.hpp', '    bool valid() const { return lu_.isInvertible(); }', '    bool valid() const { return std::abs(lu_.determinant()) > 1e-8; }')],
r'''int main() {
    Var<double, mat> x(3, 3); x.get() << 2e-3, 0, 1e-3, 0, 1e-3, 0, 1e-3, 1e-3, 3e-3;
    auto e = bind(det(x)); double v = autodiff(e); yes(std::abs(v - 5e-9) < 1e-18, "value");
    Eigen::MatrixXd g = v * x.get().inverse().transpose();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) yes(std::abs(x.get_adj()(i, j) - g(i, j)) < 1e-12 * g.norm(), "dx");
    return bad != 0;
}''', 'a well-conditioned matrix with a very small determinant', 'A matrix is taken as singular when its determinant is small, and gets no gradient.')

add('P08c', 'P08', [('reverse/core/det.hpp', '        llt_.compute(X);\n        value_t det = llt_.matrixL().determinant();\n        return det * det;',
 '        llt_.compute(X);\n        value_t det = llt_.matrixLLT().diagonal().head(std::min<Eigen::Index>(llt_.rows(), 4)).prod();\n        return det * det;')],
r'''int main() {
    for (int n = 1; n <= 6; ++n) {
        Eigen::MatrixXd a(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = i == j ? 2. + i : 0.3 / (1 + i + j);
        Var<double, mat> x(n, n); x.get() = 0.5 * (a + a.transpose());
        auto e = bind(det<DetLLT>(x)); double d = x.get().determinant(); near(autodiff(e), d, "det");
        Eigen::MatrixXd g = d * x.get().inverse().transpose(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) near(x.get_adj()(i, j), g(i, j), "dx");
    }
    return bad != 0;
}''', 'det with LLT of a matrix larger than 4 x 4', 'Only the first four pivots enter the determinant.')

# ---------------------------------------------------------------- P09
add('P09b', 'P09', [('reverse/stat/uniform.hpp', '''        return min_.get() < x_min_ && 
                x_max_ < max_.get();''', '''        return min_.get() < x_min_ && 
                !(x_max_ > max_.get());''')],
r'''int main() {
    Var<double, vec> x(2); x.get() << 1., 2.; Var<double> a(0.), b(2.);
    auto e = bind(uniform_adj_log_pdf(x, a, b)); double v = autodiff(e);
    yes(v == -std::numeric_limits<double>::infinity(), "x on the boundary"); near(a.get_adj(), 0., "da"); near(b.get_adj(), 0., "db");
    b.get() = 3.; near(autodiff(e), -2. * std::log(3.), "inside");
    return bad != 0;
}''', 'a uniform density of a vector whose largest element lies exactly on the upper bound', 'The upper bound counts as inside the support for vectors with scalar bounds.')

add('P09c', 'P09', [('reverse/stat/bernoulli.hpp', '''                    } else if (p(i) >= 1 && x(i) != 1){
                        return this->get() = util::neg_inf<value_t>;
                    } else if''', '''                    } else if (p(i) >= 1 && x(i) != 1){
                        this->get() = util::neg_inf<value_t>;
                        break;
                    } else if'''),
 ('reverse/stat/bernoulli.hpp', '''                    if (p(i) <= 0 && x(i) != 0) {
                        return this->get() = util::neg_inf<value_t>;''', '''                    if (p(i) <= 0 && x(i) != 0) {
                        this->get() = util::neg_inf<value_t>;
                        continue;''')
 , ('reverse/stat/bernoulli.hpp', '''                        this->get() += (x(i) == 1) ? 
                            std::log(p(i)) : std::log(1-p(i));''', '''                        this->get() = std::max(this->get(), std::numeric_limits<value_t>::lowest()) +
                            ((x(i) == 1) ? std::log(p(i)) : std::log(1-p(i)));''')],
r'''int main() {
    double ni = -std::numeric_limits<double>::infinity();
    Eigen::VectorXi x(3); x << 1, 1, 0; Var<double, vec> p(3);
    auto e = bind(bernoulli_adj_log_pdf(constant(x), p));
    p.get() << 0.5, -0.1, 0.25; yes(evaluate(e) == ni, "impossible in the middle");
    p.get() << 0., 0.5, 0.25; yes(evaluate(e) == ni, "impossible at the front");
    p.get() << 0.5, 0.5, 1.; yes(evaluate(e) == ni, "impossible at the end");
    p.get() << 1., 0.5, 0.25; near(evaluate(e), std::log(0.5) + std::log(0.75), "certain");
    return bad != 0;
}''', 'a bernoulli density of vectors with an impossible observation followed by a possible one', 'The value becomes a huge finite number instead of minus infinity when a regular element follows the impossible one.')

# ---------------------------------------------------------------- P10
add('P10a', 'P10', [('reverse/core/dot.hpp', '''        begin = rhs_.bind_cache(begin);
        return value_adj_view_t::bind(begin);''', '''        begin = rhs_.bind_cache(begin);
        if (this->data()) {     // already bound
            begin.val += this->size();
            begin.adj += this->size();
            return begin;
        }
        begin = value_adj_view_t::bind(begin);
        return begin;''')],
r'''int main() {
    Var<double, mat> A(2, 2); A.get() << 1., 2., 3., 4.; Var<double, vec> x(2); x.get() << 5., 6.;
    auto e = sum(dot(A, x)); auto s = e.bind_cache_size();
    std::vector<double> v1(s(0)), a1(s(1)), v2(s(0)), a2(s(1));
    e.bind_cache({v1.data(), a1.data()}); near(evaluate(e), 56., "first memory");
    e.bind_cache({v2.data(), a2.data()}); std::fill(v1.begin(), v1.end(), -7.); near(evaluate(e), 56., "second memory");
    for (double d : v1) near(d, -7., "the first memory is left alone");
    return bad != 0;
}''', 'binding an expression with a matrix product to other memory a second time', 'A matrix product that is already bound keeps its old memory when the expression is bound again.')

add('P10b', 'P10', [('reverse/core/pow.hpp', '        if constexpr (exp == 0 || exp == 1) {\n            return {this->size(), 0};', '        if constexpr (exp * exp <= 1) {\n            return {this->size(), 0};')],
r'''int main() {
    Var<double, vec> x(3); x.get() << 1., 2., 4.; auto e = ad::sum(ad::pow<-1>(x)); auto s = e.bind_cache_size();
    std::vector<double> v(20), a(20); util::PtrPack<double> p{v.data(), a.data()};
    auto q = e.bind_cache(p); near(q.val - v.data(), double(s(0)), "values used"); near(q.adj - a.data(), double(s(1)), "adjoints used");
    return bad != 0;
}''', 'pow<-1> of an expression', 'pow<-1> reports that it needs no adjoint memory, but uses it: differentiating writes past the end.')

add('P10c', 'P10', [('reverse/core/sum.hpp', '''        this->zero();
        for (auto& expr : exprs_) {
            this->get() += expr.feval();
        }''', '''        if constexpr (util::is_scl_v<vec_elem_t>) this->zero();
        else this->get() *= 0.;
        for (auto& expr : exprs_) {
            this->get() += expr.feval();
        }''')],
r'''int main() {
    std::vector<Var<double, vec>> x(2, Var<double, vec>(2)); x[0].get() << 1., 2.; x[1].get() << 3., 4.;
    auto e = sum(ad::sum(x.begin(), x.end(), [](const Var<double, vec>& v) { return v * 2.; })); auto s = e.bind_cache_size();
    for (double fill : {0., 5., std::nan("")}) {
        std::vector<double> v(s(0), fill), a(s(1), fill); e.bind_cache({v.data(), a.data()}); near(evaluate(e), 20., "value");
    }
    return bad != 0;
}''', 'working memory that contains NaN (or an infinity) before the first evaluation of a sum over vector expressions', 'The accumulator is cleared by multiplying it with zero, which keeps a NaN that was in the memory.')

# ---------------------------------------------------------------- P11
add('P11a', 'P11', [('reverse/core/log_det.hpp', '        valid_ = (std::isfinite(logdet)) && (ldlt_.info() == Eigen::Success);', '        if (!std::isfinite(logdet) || ldlt_.info() != Eigen::Success) valid_ = false;'),
 ('reverse/core/log_det.hpp', '    bool valid_ = false;\n    Eigen::LDLT', '    bool valid_ = true;\n    Eigen::LDLT')],
r'''int main() {
    Var<double, mat> x(2, 2); x.get() << 2., 0.5, 0.5, 3.; auto e = bind(log_det<LogDetLDLT>(x));
    autodiff(e); Eigen::MatrixXd g = x.get_adj(); x.reset_adj();
    x.get().setZero(); evaluate(e);
    x.get() << 2., 0.5, 0.5, 3.; near(autodiff(e), std::log(5.75), "value"); for (int i = 0; i < 4; ++i) near(x.get_adj()(i % 2, i / 2), g(i % 2, i / 2), "gradient after a singular matrix");
    return bad != 0;
}''', 'evaluating at a singular matrix once, then at a regular one', 'log_det with LDLT never becomes differentiable again after one singular matrix.')

add('P11b', 'P11', [('reverse/stat/normal.hpp', '''    void update_cache()
    {
        is_pos_def_ = (sigma_.get().array() > 0).all();
        if (is_pos_def_) {
            log_sigma_''', '''    void update_cache()
    {
        if ((sigma_.get().array() > 0).all()) {
            is_pos_def_ = true;
            log_sigma_''')],
r'''int main() {
    Var<double, vec> x(2), m(2), s(2); x.get() << 1., 2.; m.get() << 0., 1.; s.get() << 1., 2.;
    auto e = bind(normal_adj_log_pdf(x, m, s)); autodiff(e); x.reset_adj();
    s.get() << 1., -2.; double v = autodiff(e); yes(v == -std::numeric_limits<double>::infinity(), "invalid after valid"); near(x.get_adj()(0), 0., "dx");
    return bad != 0;
}''', 'a normal density with vector sigma evaluated at a valid sigma and then at an invalid one', 'Once sigma was valid, it counts as valid for ever.')

add('P11c', 'P11', [('reverse/core/det.hpp', '''        size_t n = ldlt_.rows();
        return inv_ = ldlt_.solve(mat_t::Identity(n, n));
    }

    bool valid() const { return valid_; }''', '''        size_t n = ldlt_.rows();
        if (static_cast<size_t>(inv_.rows()) != n || last_ != ldlt_.vectorD()) {
            last_ = ldlt_.vectorD();
            inv_ = ldlt_.solve(mat_t::Identity(n, n));
        }
        return inv_;
    }

    bool valid() const { return valid_; }'''),
 ('reverse/core/det.hpp', '''    bool valid_ = false;
    Eigen::LDLT<mat_t> ldlt_;
    mat_t inv_;''', '''    bool valid_ = false;
    Eigen::LDLT<mat_t> ldlt_;
    mat_t inv_;
    Eigen::Matrix<value_t, Eigen::Dynamic, 1> last_;''')],
r'''int main() {
    Var<double, mat> x(2, 2); x.get() << 2., 0., 0., 3.; auto e = bind(det<DetLDLT>(x));
    autodiff(e); x.reset_adj(); x.get() << 3., 0., 0., 2.; near(autodiff(e), 6., "value");
    near(x.get_adj()(0, 0), 2., "dx00"); near(x.get_adj()(1, 1), 3., "dx11");
    x.reset_adj(); x.get() << 2., 1., 1., 3.5; autodiff(e); x.reset_adj(); x.get() << 2., -1., -1., 3.5; autodiff(e); near(x.get_adj()(0, 1), 1., "dx01");
    return bad != 0;
}''', 'two matrices in a row with the same pivots (differing in the sign of an off-diagonal element, or permuted)', 'The cached inverse is reused whenever the pivots are unchanged.')

# ---------------------------------------------------------------- P12
add('P12a', 'P12', [('reverse/core/var.hpp', '''        assert(v.rows() == this->rows());
        assert(v.cols() == this->cols());
        val_ = v.val_;
        adj_ = v.adj_;
        rebind();
        return *this;
    }

    Var& operator=(Var&& v) 
    {
        if (this == &v) return *this;
        assert(v.rows() == this->rows());
        assert(v.cols() == this->cols());
        val_ = std::move(v.val_);''', '''        assert(v.rows() == this->rows());
        assert(v.cols() == this->cols());
        if (val_ != v.val_) adj_ = v.adj_;
        val_ = v.val_;
        rebind();
        return *this;
    }

    Var& operator=(Var&& v) 
    {
        if (this == &v) return *this;
        assert(v.rows() == this->rows());
        assert(v.cols() == this->cols());
        val_ = std::move(v.val_);''')],
r'''int main() {
    Var<double> a(2.), b(2.); a.get_adj() = 5.; b.get_adj() = 7.; b = a; near(b.get_adj(), 5., "adjoint copied"); near(b.get(), 2., "value");
    a.get_adj() = 1.; near(b.get_adj(), 5., "independent");
    return bad != 0;
}''', 'assigning a scalar variable that has the same value but another adjoint', 'The adjoint is copied only when the value changes.')

add('P12c', 'P12', [('reverse/core/value_adj_view.hpp', '''        begin.adj = adj_view_.bind(begin.adj);
        return begin;''', '''        if (begin.adj || this->rows() > 1) begin.adj = adj_view_.bind(begin.adj);
        else begin.adj = begin.adj + this->size();
        return begin;''')],
r'''int main() {
    double v = 3., a = 0., w = 4.; VarView<double> x(&v, &a);
    x.bind({&w, nullptr}); near(x.get(), 4., "value storage"); yes(x.data_adj() == nullptr, "adjoint storage moved");
    VarView<double, vec> y(&v, &a, 1); y.bind({&w, nullptr}); yes(y.data_adj() == nullptr, "vector adjoint storage moved");
    return bad != 0;
}''', 're-binding a one-row view to storage without adjoints', 'The view keeps its old adjoint storage.')

# ---------------------------------------------------------------- P13
add('P13b', 'P13', [('reverse/core/dot.hpp', '''        auto a_radj = util::to_array(lhs_.get().transpose() * this->get_adj());''', '''        // the transpose of a constant needs to be formed once only
        if constexpr (util::is_constant_v<lhs_t>) {
            if (lhs_t_.size() == 0) lhs_t_ = lhs_.get().transpose();
        } else {
            lhs_t_ = lhs_.get().transpose();
        }
        auto a_radj = util::to_array(lhs_t_ * this->get_adj());'''),
 ('reverse/core/dot.hpp', '''private:
    lhs_t lhs_;
    rhs_t rhs_;''', '''private:
    Eigen::Matrix<value_t, Eigen::Dynamic, Eigen::Dynamic> lhs_t_;
    lhs_t lhs_;
    rhs_t rhs_;''')],
r'''int main() {
    double d[4] = {1., 3., 2., 4.}; Var<double, vec> x(2); x.get() << 5., 6.;
    auto e = bind(sum(dot(constant_view(d, 2, 2), x))); near(autodiff(e), 56., "value"); near(x.get_adj()(0), 4., "dx");
    d[0] = 10.; x.reset_adj(); near(autodiff(e), 101., "value 2"); near(x.get_adj()(0), 13., "dx follows the viewed memory");
    return bad != 0;
}''', 'a matrix product with a constant view on the left whose memory changes between two differentiations', 'The transposed constant is cached at the first differentiation, also for views.')

add('P13c', 'P13', [('reverse/core/if_else.hpp', '        return cond_expr.feval() ? ', '        return cond_expr.feval() == 1 ? ')],
r'''int main() {
    near(if_else(constant(2.), constant(3.), constant(4.)).feval(), 3., "2 is true"); near(if_else(constant(0.), constant(3.), constant(4.)).feval(), 4., "0 is false");
    near(if_else(constant(1.) < constant(2.), constant(3.), constant(4.)).feval(), 3., "comparison");
    return bad != 0;
}''', 'an if_else of constants only whose condition is a non-zero number other than 1', 'The constant folding of if_else takes only 1 as true.')

# ---------------------------------------------------------------- P14
add('P14a', 'P14', [('reverse/core/log_det.hpp', '        if (seed == 0 || !decomp_.valid()) return;', '        if (std::abs(seed) < 1e-12 || !decomp_.valid()) return;')],
r'''int main() {
    Var<double, mat> x(2, 2); x.get() << 2., 1., 0., 4.; auto e = bind(log_det(x)); evaluate(e);
    for (double s : {1., 1e-6, 1e-14}) { x.reset_adj(); evaluate_adj(e, s); near(x.get_adj()(0, 0) / s, 0.5, "linear in the seed"); }
    return bad != 0;
}''', 'a very small non-zero seed of log_det', 'Seeds below 1e-12 are dropped.')

add('P14b', 'P14', [('reverse/core/eq.hpp', '        return this->get() = var_view_.get() = expr_.feval();', '        this->reset_adj();      // start from a clean placeholder\n        this->get() = var_view_.get() = expr_.feval();\n        return this->get();')],
r'''int main() {
    Var<double> x(3.), w(0.); auto e = bind((w = x * x, w * 2.));
    w.get_adj() = 5.; evaluate(e); near(w.get_adj(), 5., "evaluation leaves adjoints alone");
    return bad != 0;
}''', 'a placeholder whose adjoint is not zero when the expression is evaluated', 'Evaluating an assignment clears the adjoint of the placeholder.')

add('P14c', 'P14', [('reverse/core/norm.hpp', '''        auto&& a_expr = util::to_array(expr_.get());
        expr_.beval(seed * 2. * a_expr);''', '''        auto&& a_expr = util::to_array(expr_.get());
        expr_.beval(std::copysign(std::max(std::abs(seed), std::numeric_limits<value_t>::epsilon()), seed) * 2. * a_expr);''')],
r'''int main() {
    Var<double, vec> x(2); x.get() << 2e8, 1.; auto e = bind(norm(x)); evaluate(e);
    evaluate_adj(e, 0.); near(x.get_adj()(0), 0., "zero seed"); evaluate_adj(e, 1e-20); yes(std::abs(x.get_adj()(0) - 4e-12) < 1e-20, "small seed");
    return bad != 0;
}''', 'a zero or tiny seed of norm', 'The seed is clamped away from zero, so a zero seed changes adjoints.')

# ---------------------------------------------------------------- P15
add('P15a', 'P15', [('reverse/core/sum.hpp', '        , exprs_{exprs}\n    {}', '        , shared_(std::make_shared<std::vector<vec_elem_t>>(exprs))\n        , exprs_(*shared_)\n    {}'),
 ('reverse/core/sum.hpp', '    std::vector<vec_elem_t> exprs_;', '    std::shared_ptr<std::vector<vec_elem_t>> shared_;    // copies of the node share the expressions\n    std::vector<vec_elem_t>& exprs_;'),
 ('reverse/core/sum.hpp', '#pragma once\n', '#pragma once\n#include <memory>\n')],
r'''int main() {
    std::vector<Var<double>> x(3); for (int i = 0; i < 3; ++i) x[i].get() = i + 1.;
    auto e = bind(ad::sum(x.begin(), x.end(), [](const Var<double>& v) { return v * v; }));
    evaluate(e); auto c = std::make_unique<decltype(e)>(e);
    x[0].get() = 10.; evaluate(*c); x[0].get() = 1.;
    evaluate_adj(e); 
    // the copy was evaluated at another point: differentiating e must still use its own evaluation
    auto s = ad::sum(x.begin(), x.end(), [](const Var<double>& v) { return (v * v) * v; }); auto a = bind(s);
    x[0].get() = 2.; for (auto& v : x) v.reset_adj(); evaluate(a); auto b = a; x[0].get() = 5.; evaluate(b); x[0].get() = 2.;
    evaluate_adj(a); near(x[0].get_adj(), 12., "original keeps its own evaluation");
    return bad != 0;
}''', 'a copy of a bound expression with a sum over a range, evaluated (or destroyed) between evaluation and differentiation of the original', 'Copies of the sum node share the expressions of the range, which are bound to the memory of the copy made last.')

add('P15b', 'P15', [('reverse/core/det.hpp', '        , decomp_(expr.rows())', '        , decomp_(std::make_shared<decomp_t>(expr.rows()))'),
 ('reverse/core/det.hpp', '        return this->get() = decomp_.fmap(expr_.feval());', '        return this->get() = decomp_->fmap(expr_.feval());'),
 ('reverse/core/det.hpp', '!decomp_.valid()) return;\n        auto a_inv_t = decomp_.bmap().array();', '!decomp_->valid()) return;\n        auto a_inv_t = decomp_->bmap().array();'),
 ('reverse/core/det.hpp', '    decomp_t decomp_;\n};', '    std::shared_ptr<decomp_t> decomp_;      // cheap to copy\n};'),
 ('reverse/core/det.hpp', '#pragma once\n', '#pragma once\n#include <memory>\n')],
r'''int main() {
    Var<double, mat> x(2, 2); x.get() << 2., 1., 0., 4.; auto a = bind(det(x)); auto b = a;
    evaluate(a); x.get() << 1., 0., 0., 1.; evaluate(b); x.get() << 2., 1., 0., 4.; evaluate_adj(a);
    near(x.get_adj()(0, 0), 4., "gradient at the point where it was evaluated");
    return bad != 0;
}''', 'a copy of a bound det expression evaluated at another point between evaluation and differentiation of the original', 'Copies of the node share the decomposition.')

# ---------------------------------------------------------------- P16
add('P16a', 'P16', [('forward/core/forward.hpp', '        x.get_value() * y.get_adjoint() + x.get_adjoint() * y.get_value())', '        (x.get_value() * y.get_value()) * (y.get_adjoint() / y.get_value() + x.get_adjoint() / x.get_value()))')],
r'''int main() {
    ForwardVar<double> x(0., 1.), y(3., 2.); auto z = x * y; near(z.get_value(), 0., "value"); near(z.get_adjoint(), 3., "(xy)' at x = 0");
    ForwardVar<double> a(2., 1.), b(3., 2.); near((a * b).get_adjoint(), 7., "regular");
    return bad != 0;
}''', 'a factor that is exactly 0', 'The derivative of a product uses the logarithmic derivatives: NaN when a factor is 0.')

add('P16b', 'P16', [('forward/core/forward.hpp', '    return *this = *this + x;', '    this->set_value(this->get_value() + x.get_value());\n    if (x.get_value() != 0) this->set_adjoint(this->get_adjoint() + x.get_adjoint());\n    return *this;')],
r'''int main() {
    ForwardVar<double> s(1., 0.), x(0., 1.); s += x; near(s.get_adjoint(), 1., "adding a variable with value 0");
    s += s; near(s.get_value(), 2., "doubling"); near(s.get_adjoint(), 2., "doubling'");
    return bad != 0;
}''', 'adding with += an operand whose value is 0 but whose adjoint is not', 'Adding zero is taken as doing nothing, so the derivative is lost.')

# ---------------------------------------------------------------- P17
add('P17a', 'P17', [('reverse/core/det.hpp', '''        size_t n = ldlt_.rows();
        return inv_ = ldlt_.solve(mat_t::Identity(n, n));''', '''        size_t n = ldlt_.rows();
        static mat_t inv;       // reuse the allocation
        return inv = ldlt_.solve(mat_t::Identity(n, n));''')],
r'''static int work(double off) {
    Var<double, mat> x(2, 2); auto e = bind(det<DetLDLT>(x)); int wrong = 0;
    for (int i = 0; i < 400000; ++i) { double d = 2. + off + i % 3; x.get() << d, 0., 0., 1.; x.reset_adj(); autodiff(e);
        if (x.get_adj()(0, 0) != 1. || std::abs(x.get_adj()(1, 1) - d) > 1e-9) ++wrong; }
    return wrong;
}
int main() {
    int r[4]; std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { r[k] = work(10. * k); });
    for (auto& x : t) x.join();
    for (int k : r) yes(k == 0, "gradients wrong under concurrency");
    return bad != 0;
}''', 'two threads that differentiate det expressions with LDLT at the same time', 'The inverse is kept in a function-local static shared by all expressions and threads.')

add('P17b', 'P17', [('reverse/stat/normal.hpp', '''        sigma_.beval(seed * (z_sq - x_.rows()) * inv_s);
        }

        mean_.beval((seed * inv_s_sq) * (x - m));''', '''        sigma_.beval(seed * (z_sq - x_.rows()) * inv_s);
        }

        mean_.beval((seed * inv_s_sq) * (x - m));'''.replace('z_sq', 'z_sq')),
 ('reverse/stat/normal.hpp', '''    value_t log_sigma_;
    value_t z_sq;
};''', '''    value_t log_sigma_;
    inline static value_t z_sq = 0;     // temporary of evaluation
};'''),
 ('reverse/stat/normal.hpp', '''        , log_sigma_{0}
        , z_sq{0}
    {
        if constexpr''', '''        , log_sigma_{0}
    {
        if constexpr''')],
r'''int main() {
    Var<double, vec> x(2), m(2), y(2), k(2); Var<double> s(2.), t(3.); x.get() << 1., 2.; m.get() << 0., 0.5; y.get() << 9., 8.; k.get() << 1., 2.;
    auto a = bind(normal_adj_log_pdf(x, m, s)); auto b = bind(normal_adj_log_pdf(y, k, t));
    autodiff(a); double want = s.get_adj(); s.reset_adj();
    evaluate(a); evaluate(b); evaluate_adj(a); near(s.get_adj(), want, "evaluating b between");
    return bad != 0;
}''', 'two normal densities of the same type where the second is evaluated between evaluation and differentiation of the first', 'The squared residual is kept in a static member shared by all densities of that type.')

add('P17c', 'P17', [('reverse/core/transpose.hpp', '''        auto &&res = expr_.feval();
        return this->get() = res.transpose();''', '''        auto &&res = expr_.feval();
        static Eigen::Matrix<value_t, Eigen::Dynamic, Eigen::Dynamic> tmp;
        tmp = res.transpose();
        return this->get() = tmp;''')],
r'''static int work(int n, double off) {
    Var<double, mat> x(n, n + 1); auto e = bind(transpose(x)); int wrong = 0;
    for (int i = 0; i < 200000; ++i) { x.get().setConstant(off + i % 5); auto&& v = evaluate(e); if (v(0, 0) != off + i % 5 || v(n, n - 1) != off + i % 5) ++wrong; }
    return wrong;
}
int main() {
    int r[4]; std::vector<std::thread> t; for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { r[k] = work(3, 10. * k); });
    for (auto& x : t) x.join();
    for (int k : r) yes(k == 0, "values wrong under concurrency");
    return bad != 0;
}''', 'two threads that evaluate transposes at the same time', 'The transpose is formed in a function-local static shared by all threads.')

# ---------------------------------------------------------------- P18
add('P18a', 'P18', [('reverse/core/norm.hpp', '        auto&& a_expr = util::to_array(expr_.get());', '        auto&& a_expr = util::to_array(expr_.feval());')],
r'''static long visits;
template <class E> struct Count : core::ExprBase<Count<E>>, E { using E::E; Count(const E& e) : E(e) {}
    auto& feval() { ++visits; return E::feval(); } template <class T> void beval(const T& s) { E::beval(s); } };
int main() {
    Var<double, vec> x(2); x.get() << 1., 2.; auto inner = ad::sin(x); 
    // re-evaluating while differentiating would use the changed value of x
    auto e = bind(norm(inner)); evaluate(e); x.get() << 5., 6.; evaluate_adj(e);
    double c = std::cos(5.); (void)c;
    double v = 2. * std::sin(1.) * std::cos(5.); near(x.get_adj()(0), v, "differentiation evaluates nothing");
    return bad != 0;
}''', 'the cost of differentiating nested norms, or values that change between evaluation and differentiation', 'Differentiating a norm evaluates its operand again, so nested norms cost exponentially.')

add('P18b', 'P18', [('reverse/core/if_else.hpp', '        if (cond_expr_.get()) {', '        if (cond_expr_.feval()) {')],
r'''int main() {
    Var<double> c(1.), x(2.), y(3.);
    auto e = bind(if_else(c < 2., x * x, y * y * y)); near(evaluate(e), 4., "value"); c.get() = 5.; evaluate_adj(e);
    near(x.get_adj(), 4., "the evaluated branch gets the seed"); near(y.get_adj(), 0., "the other branch gets nothing");
    return bad != 0;
}''', 'the cost of differentiating an if_else with an expensive condition, or a condition whose variables change between evaluation and differentiation', 'Differentiating an if_else evaluates the condition again.')

add('P18c', 'P18', [('reverse/core/prod.hpp', 'if (k != idx) a_val *= util::to_array(exprs_[k].get());', 'if (k != idx) a_val *= util::to_array(exprs_[k].feval());')],
r'''int main() {
    std::vector<Var<double>> x(3); x[0].get() = 2.; x[1].get() = 0.; x[2].get() = 5.;
    auto e = bind(ad::prod(x.begin(), x.end(), [](const Var<double>& v) { return v * 1.; })); evaluate(e);
    x[0].get() = 100.; evaluate_adj(e); near(x[1].get_adj(), 10., "differentiation uses the evaluated values");
    return bad != 0;
}''', 'differentiating a product over a range in which an expression is zero', 'The other expressions of the range are evaluated again for every zero one.')

# ---------------------------------------------------------------- second batch
add('P02d', 'P02', [('reverse/core/binary.hpp', '''            return (seed / y).sum();
        } else {
            return seed / y;''', '''            return (seed / y).sum();
        } else {
            return seed * (1 / y);''')],
r'''int main() {
    Var<double> x(3.); auto e = bind(x / 4); near(autodiff(e), 0.75, "value"); near(x.get_adj(), 0.25, "d(x/4)");
    Var<double, vec> v(2); v.get() << 1., 2.; auto f = bind(sum(v / 8)); near(autodiff(f), 0.375, "vector value"); near(v.get_adj()(0), 0.125, "d(v/8)");
    return bad != 0;
}''', 'an integer literal as divisor', 'The reciprocal of an integer constant is an integer division: zero gradient.')

add('P09d', 'P09', [('reverse/stat/normal.hpp', 'x_var_ = (x_.get().array() - x_mean_).matrix().squaredNorm();', 'x_var_ = x_.get().squaredNorm() - x_.rows() * x_mean_ * x_mean_;')],
r'''int main() {
    Eigen::VectorXd d(4); d << 1., 3., 2., 6.; d.array() += 1e8; Var<double> m(1e8 + 2.), s(1.5);
    auto e = bind(normal_adj_log_pdf(constant(d), m, s)); double q = 1. + 1. + 0. + 16.;
    near(autodiff(e), -0.5 * q / 2.25 - 4 * std::log(1.5), "value", 1e-6); near(m.get_adj(), (-1. + 1. + 0. + 4.) / 2.25, "dm", 1e-6);
    return bad != 0;
}''', 'constant data far from the origin compared with their spread', 'The variance of constant data is a difference of large numbers.')

add('P09e', 'P09', [('reverse/stat/wishart.hpp', '               (n_.get() + 1 > v_.rows());', '               (n_.get() >= v_.rows());')],
r'''int main() {
    Var<double, mat> x(2, 2), v(2, 2); x.get() << 2., 0.5, 0.5, 1.; v.get() << 1.5, 0.25, 0.25, 2.;
    auto e = bind(wishart_adj_log_pdf(x, v, 1.5)); double got = autodiff(e); double want = 0.5 * (1.5 - 3.) * std::log(1.75) - 0.5 * (v.get().inverse() * x.get()).trace() - 0.75 * std::log(2.9375);
    near(got, want, "degrees of freedom between p-1 and p");
    auto f = bind(wishart_adj_log_pdf(x, v, 3.)); yes(std::isfinite(autodiff(f)), "n = 3");
    return bad != 0;
}''', 'degrees of freedom between p-1 and p', 'The support of the degrees of freedom is cut at p instead of p-1.')

add('P10d', 'P10', [('reverse/core/if_else.hpp', '''                if_expr_.bind_cache_size() + 
                else_expr_.bind_cache_size();''', '''                if_expr_.bind_cache_size().max( 
                else_expr_.bind_cache_size());''')],
r'''int main() {
    Var<double> x(2.), y(3.); auto e = if_else(x < y, sin(x) * y, cos(y) * x); auto need = e.bind_cache_size();
    std::vector<double> v(64, 7.), a(64, 7.); auto end = e.bind_cache({v.data(), a.data()});
    yes((size_t)(end.val - v.data()) == need(0), "values"); yes((size_t)(end.adj - a.data()) == need(1), "adjoints");
    return bad != 0;
}''', 'an if_else whose branches both need memory', 'The memory of the branches is reported as the larger of the two, but both are bound.')

add('P11d', 'P11', [('reverse/stat/bernoulli.hpp', '''    void update_cache() {
        if (within_range()) {
            log_p_ = std::log(p_.get());
            log_p_dual_ = std::log(1-p_.get());
        }
    }

    void update_x_cache() {''', '''    void update_cache() {
        if (within_range() && log_p_ == 0) {
            log_p_ = std::log(p_.get());
            log_p_dual_ = std::log(1-p_.get());
        } else if (within_range() && std::abs(std::exp(log_p_) - p_.get()) > 1e-6) {
            log_p_ = std::log(p_.get());
            log_p_dual_ = std::log(1-p_.get());
        }
    }

    void update_x_cache() {''')],
r'''int main() {
    Var<double> p(1e-7); Eigen::VectorXd x(3); x << 1., 0., 1.;
    auto e = bind(bernoulli_adj_log_pdf(constant(x), p)); near(autodiff(e), 2 * std::log(1e-7) + std::log(1 - 1e-7), "first");
    p.get() = 5e-7; near(evaluate(e), 2 * std::log(5e-7) + std::log(1 - 5e-7), "after a small change of p");
    return bad != 0;
}''', 're-evaluating after a small change of the probability', 'The logarithms are kept when the probability changed by less than 1e-6.')

add('P14d', 'P14', [('reverse/core/unary.hpp', '''        a_adj = seed;
''', '''        if constexpr (util::is_scl_v<expr_t>) {
            a_adj = seed;
        } else {
            a_adj = seed;
            if (a_adj.sum() == 0) { expr_.beval(a_adj * 0); return; }
        }
''')],
r'''int main() {
    Var<double, vec> x(2); x.get() << 1., 2.; auto e = bind(exp(x));
    Eigen::ArrayXd seed(2); seed << 1., -1.; autodiff(e, seed);
    near(x.get_adj()(0), std::exp(1.), "first"); near(x.get_adj()(1), -std::exp(2.), "second");
    x.reset_adj(); seed << 1., 1.; autodiff(e, seed); near(x.get_adj()(1), std::exp(2.), "ones");
    return bad != 0;
}''', 'a seed whose elements add up to zero', 'A seed that sums to zero is taken for zero.')

add('P16c', 'P16', [('forward/core/forward.hpp', '''        (x.get_adjoint() * y.get_value() - x.get_value() * y.get_adjoint()) / (y.get_value() * y.get_value()))''', '''        y.get_adjoint() == T(0) ? x.get_adjoint() / y.get_value() : x.get_value() / y.get_value() * (x.get_adjoint() / x.get_value() - y.get_adjoint() / y.get_value()))''')],
r'''int main() {
    ForwardVar<double> x(0., 1.), y(2., 1.); near((x / y).get_adjoint(), 0.5, "0/2"); ForwardVar<double> z(3., 1.); near((z / y).get_adjoint(), (2. - 3.) / 4., "3/2"); ForwardVar<double> c(2., 0.); near((z / c).get_adjoint(), 0.5, "constant");
    return bad != 0;
}''', 'a quotient with numerator zero and a denominator that carries a derivative', 'The logarithmic derivative of a quotient divides by the numerator.')

add('P18d', 'P18', [('reverse/core/pow.hpp', '''            return this->get() = expr_.feval().array().pow(exp_); ''', '''            auto&& x = expr_.feval().array();
            if constexpr (exp_ < 0) return this->get() = expr_.feval().array().pow(-exp_).inverse();
            else return this->get() = x.pow(exp_); ''')],
r'''int main() {
    Var<double, vec> x(2), y(2), w(2); x.get() << 1., 2.; y.get() << 2., 4.;
    auto e = bind(sum(pow<-2>(y += x))); double v = evaluate(e); near(v, 1. / 9 + 1. / 36, "evaluated once"); near(y.get()(0), 3., "y updated once");
    return bad != 0;
}''', 'a negative power of a vector expression with an in-place update', 'The operand of a negative power is evaluated twice.')

# ---------------------------------------------------------------- third batch
add('P01b', 'P01', [('reverse/core/unary.hpp', 'return 1/(1+exp(-x));', 'return 1 - 1/(1+exp(x));')],
r'''int main() {
    Var<double> x(-50.); auto e = bind(ad::sigmoid(x)); double v = autodiff(e), w = 1 / (1 + std::exp(50.));
    yes(std::abs(v / w - 1) < 1e-9, "sigmoid(-50)"); near(x.get_adj() / w, 1., "derivative");
    return bad != 0;
}''', 'sigmoid of a large negative argument', 'One minus the upper tail: the lower tail cancels to 0.')

add('P02e', 'P02', [('reverse/core/binary.hpp', '''            return (seed * y).sum();''', '''            return (seed * y).mean() * y.size();''')],
r'''int main() {
    Var<double> s(2.); Var<double, vec> v(0), w(3); w.get() << 1., 2., 3.;
    auto e = bind(s + sum(s * v) + sum(s * w)); autodiff(e); near(s.get_adj(), 7., "ds");
    return bad != 0;
}''', 'a scalar times an empty vector', 'The adjoint of a broadcast factor is the mean times the size: NaN when there are no elements.')

add('P03c', 'P03', [('reverse/core/binary.hpp', '        return x == y;,', '        return (x - y) == 0;,')],
r'''int main() {
    double inf = std::numeric_limits<double>::infinity(); Var<double> x(inf), y(inf); near(evaluate(bind(x == y)), 1., "inf == inf");
    y.get() = -inf; near(evaluate(bind(x == y)), 0., "inf == -inf"); x.get() = 3; y.get() = 3; near(evaluate(bind(x == y)), 1., "3 == 3");
    return bad != 0;
}''', 'comparing two infinities for equality', 'Equality is decided on the difference, which is NaN for equal infinities.')

add('P04c', 'P04', [('reverse/core/dot.hpp', '''        util::to_array(this->get_adj()) = seed;
''', '''        auto& scratch = details::dot_scratch<value_t>;
        util::to_array(this->get_adj()) = seed;
'''), ('reverse/core/dot.hpp', '''template <class LHSExprType
        , class RHSExprType>
struct DotNode:''', '''namespace details {
template <class V>
inline thread_local Eigen::Matrix<V, Eigen::Dynamic, Eigen::Dynamic> dot_scratch;
}

template <class LHSExprType
        , class RHSExprType>
struct DotNode:'''), ('reverse/core/dot.hpp', '''        auto a_ladj = util::to_array(this->get_adj() * rhs_.get().transpose());
''', '''        scratch = this->get_adj() * rhs_.get().transpose();
'''), ('reverse/core/dot.hpp', '''        lhs_.beval(a_ladj);''', '''        lhs_.beval(scratch.array());''')],
r'''int main() {
    Var<double, mat> A(2, 2), B(2, 2); Var<double, vec> v(2); A.get() << 1., 2., 3., 4.; B.get() << -1., 0.5, 2., 1.; v.get() << 3., -2.;
    auto e = bind(sum(dot(A, dot(B, v)))); autodiff(e);
    Eigen::VectorXd bv = B.get() * v.get(); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) near(A.get_adj()(i, j), bv(j), "dA");
    return bad != 0;
}''', 'a matrix product nested in the right operand of another', 'The left adjoint is kept in a scratch matrix shared by all products, which the product nested on the right overwrites.')

add('P07c', 'P07', [('reverse/core/prod.hpp', '''                    adj_cache_.get(l,k) *= this->get() / expr_.get(l,k);''', '''                    adj_cache_.get(l,k) *= this->get() * (value_t(1) / expr_.get(l,k));''')],
r'''int main() {
    Var<double, vec> v(2); v.get() << 1e-310, 3.; auto e = bind(prod(v)); autodiff(e); near(v.get_adj()(0), 3., "d0"); near(v.get_adj()(1), 0., "d1");
    return bad != 0;
}''', 'a product with a subnormal element', 'Multiplying by the reciprocal overflows for subnormal elements.')

add('P11e', 'P11', [('reverse/core/prod.hpp', '''                // if current expr's value is 0, cannot optimize,
                // must recompute product leaving current index out.
                if (expr_.get(l,k) == 0) {''', '''                // if current expr's value is 0, cannot optimize,
                // must recompute product leaving current index out.
                if (expr_.get(l,k) == 0) zero_seen_ = true;
                if (zero_seen_ && this->get() == last_) {'''),
 ('reverse/core/prod.hpp', '''        expr_.beval(util::to_array(adj_cache_.get()));''', '''        last_ = this->get();
        expr_.beval(util::to_array(adj_cache_.get()));'''),
 ('reverse/core/prod.hpp', '''    value_view_t adj_cache_;
};''', '''    value_view_t adj_cache_;
    bool zero_seen_ = false;
    value_t last_ = 0;
};''')],
r'''int main() {
    Var<double, vec> v(2); v.get() << 2., 3.; auto e = bind(prod(v)); autodiff(e); v.reset_adj(); v.get() << 0., 3.; autodiff(e);
    near(v.get_adj()(0), 3., "zero after non-zero"); near(v.get_adj()(1), 0., "other");
    return bad != 0;
}''', 'a product that becomes zero in a later evaluation', 'A zero is handled only if the product was the same at the last differentiation.')

add('P12d', 'P12', [('reverse/core/var_view.hpp', '''        size_t offset = base_t::size() - n;
        return VarView(base_t::data() + offset, 
                       base_t::data_adj() + offset,
                       n);''', '''        size_t offset = base_t::size() - n;
        return VarView(base_t::data() + offset, 
                       base_t::data_adj() + (n > 1 ? offset : 1),
                       n);''')],
r'''int main() {
    Var<double, vec> v(4); v.get() << 1., 2., 3., 4.; auto t = v.tail(1); auto e = bind(sum(t * 2.)); autodiff(e);
    near(v.get_adj()(3), 2., "last"); near(v.get_adj()(1), 0., "second");
    return bad != 0;
}''', 'the tail of length one of a vector longer than two', 'The adjoint of a tail of length one is the second element.')

add('P13d', 'P13', [('reverse/core/constant.hpp', '''    template <class T>
    Constant(const T& c)
        :c_(c)
    {}''', '''    template <class T>
    Constant(const T& c)
        :c_(c)
    {
        if constexpr (!util::is_scl_v<this_t>) {
            if (c_.rows() == c_.cols() && c_.rows() > 1 && c_.isLowerTriangular(1e-8)) {
                c_ = c_.template triangularView<Eigen::Lower>();
            }
        }
    }''')],
r'''int main() {
    Eigen::MatrixXd m(2, 2); m << 1., 1e-9, 2., 0.; Var<double, vec> v(2); v.get() << 0., 1e9;
    auto e = bind(sum(dot(constant(m), v))); near(autodiff(e), 1., "value"); yes(v.get_adj()(1) == 1e-9, "dv");
    return bad != 0;
}''', 'a square matrix constant with a tiny upper triangle', 'Constants that are nearly lower triangular lose their upper triangle.')

add('P14e', 'P14', [('reverse/core/norm.hpp', '''        auto&& a_expr = util::to_array(expr_.get());
        expr_.beval(seed * 2. * a_expr);''', '''        auto&& a_expr = util::to_array(expr_.get());
        if constexpr (util::is_var_view_v<expr_t>) {
            if (seed == 0) expr_.reset_adj();
        }
        expr_.beval((2. * seed) * a_expr);''')],
r'''int main() {
    Var<double, vec> v(2); v.get() << 1., 2.; v.get_adj() << 5., 6.; auto e = bind(norm(v)); autodiff(e, 0.); near(v.get_adj()(0), 5., "kept"); near(v.get_adj()(1), 6., "kept");
    autodiff(e); near(v.get_adj()(0), 7., "added");
    return bad != 0;
}''', 'a zero seed for the norm of a variable with existing adjoints', 'A zero seed clears the adjoints instead of adding nothing.')

add('P16d', 'P16', [('forward/core/forward.hpp', '''    return *this = *this + x;''', '''    this->set_adjoint(this->get_adjoint() + x.get_adjoint());
    if (x.get_value() != T(0)) this->set_value(this->get_value() + x.get_value() * (this->get_adjoint() == this->get_adjoint()));
    return *this;''')],
r'''int main() {
    double nan = std::nan(""); ForwardVar<double> x(1., nan), y(2., 1.); x += y; near(x.get_value(), 3., "value"); ForwardVar<double> a(1., 2.); a += a; near(a.get_value(), 2., "a"); near(a.get_adjoint(), 4., "da");
    return bad != 0;
}''', '+= on a variable whose adjoint is NaN', 'The value is not updated when the adjoint is NaN.')

add('P17d', 'P17', [('reverse/core/log_det.hpp', '''        return inv_ = ldlt_.solve(mat_t::Identity(n, n));''', '''        static mat_t ident;
        if (static_cast<size_t>(ident.rows()) != n) ident.setIdentity(n, n);
        return inv_ = ldlt_.solve(ident);''')],
r'''#include <thread>
int main() {
    auto work = [](int n, int reps, double& err) {
        Var<double, mat> B(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) B.get()(i, j) = i == j ? 4. + i : 0.5; auto f = bind(ad::log_det<LogDetLDLT>(B)); Eigen::MatrixXd w = B.get().inverse();
        for (int r = 0; r < reps; ++r) { B.reset_adj(); autodiff(f); double e = (B.get_adj() - w).cwiseAbs().maxCoeff(); if (!(e < 1e-9)) err = 1; }
    };
    double a = 0, b = 0, c = 0; work(3, 1, a); std::thread s(work, 2, 20000, std::ref(a)), t(work, 24, 2000, std::ref(b)), u(work, 5, 20000, std::ref(c)); s.join(); t.join(); u.join(); near(a + b + c, 0., "threads");
    return bad != 0;
}''', 'threads differentiating log determinants of different sizes at once', 'A shared identity matrix is resized without synchronisation.')

add('P18e', 'P18', [('reverse/core/sum.hpp', '''        for (auto& expr : exprs_) {
            this->get() += expr.feval();
        }''', '''        if (exprs_.size() > 1) {
            this->get() = exprs_[0].feval();
            if (exprs_.size() > 2) exprs_[0].feval();
            for (size_t i = 1; i < exprs_.size(); ++i) this->get() += exprs_[i].feval();
        } else for (auto& expr : exprs_) {
            this->get() += expr.feval();
        }''')],
r'''int main() {
    Var<double> y(1.); std::vector<double> k = {1., 2., 3.}; std::vector<Var<double>> a(3);
    auto e = bind((sum(k.begin(), k.end(), [&](double q) { return y += constant(q); }), y * 1.)); evaluate(e); near(y.get(), 7., "each update once");
    return bad != 0;
}''', 'a sum over a range of three or more expressions', 'The first expression of the range is evaluated twice.')
