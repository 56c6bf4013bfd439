// assembles a real expression from a reference tree
#include "engine.hpp"
namespace eng {
Any build(const Node* n, Store& st, Ids* ids) {
    using namespace ref;
    std::vector<Any> k;
    for (auto x : n->kid) { k.push_back(build(x, st, ids)); if (!k.back()) return {}; }
    Any o;
    switch (n->k) {
    case VAR:
        if (n->s == S) o = dyn::any(st.S(n->var, n->off));
        else if (n->s == V) o = dyn::any(st.V(n->var, n->off, n->r));
        else o = dyn::any(st.M(n->var));
        break;
    case CONST:
        if (n->s == S) o = dyn::any(ad::constant(n->cv[0]));
        else if (n->s == V) { Eigen::VectorXd c = Eigen::Map<const Eigen::VectorXd>(n->cv.data(), n->r); o = dyn::any(ad::constant(c)); }
        else { Eigen::MatrixXd c = Eigen::Map<const Eigen::MatrixXd>(n->cv.data(), n->r, n->c); o = dyn::any(ad::constant(c)); }
        break;
    case UN: o = dyn::mk_un(n->op, k[0]); break;
    case POW: o = dyn::mk_pow(n->op, k[0]); break;
    case BIN: o = dyn::mk_bin(n->op, k[0], k[1]); break;
    case SUM: case PROD: case NORM: case TRANS: o = dyn::mk_red(n->k, k[0]); break;
    case DOT: o = dyn::mk_dot(k[0], k[1]); break;
    case DET: case LOGDET: o = dyn::mk_det(n->k, n->op, k[0]); break;
    case IF: o = dyn::mk_if(k[0], k[1], k[2]); break;
    case GLUE: o = dyn::mk_glue(k[0], k[1]); break;
    case EQ: o = dyn::mk_eq(st.v(n->var) + n->off, st.a(n->var) + n->off, n->r, n->c, k[0]); break;
    case OPEQ: o = dyn::mk_opeq(n->op, n->s, st.v(n->var) + n->off, st.a(n->var) + n->off, n->r, n->c, k[0]); break;
    case SUMIT: case PRODIT: case FOREACH: o = dyn::mk_iter(n->k, k); break;
    case PDF: o = dyn::mk_pdf(n->op, k); break;
    }
    if (o && ids) { o.set_id(++ids->next); ids->node.push_back(n); }
    return o;
}

}
