// Forward variable selection: the greedy path, the recorded models and the model chosen.
#include "common.h"
#include "gwmodelpp/VariableForwardSelector.h"
#include <set>
using namespace hx;
typedef std::vector<size_t> Vars;
struct Recorder : public IVarialbeSelectable
{
    std::function<double(Vars)> f; long stopAt = -1; std::vector<std::pair<Vars, double>> evals;
    Status getCriterion(const Vars& v, double& c) override
    {
        if (stopAt >= 0 && (long)evals.size() >= stopAt) { c = DBL_MAX; evals.push_back({v, c}); return Status::Terminated; }
        c = f(v); evals.push_back({v, c}); return Status::Success;
    }
    Vars selectedVariables() override { return {}; }
};
// the model chosen from the recorded list: the last one whose criterion drops by at least the threshold, else the last
static std::pair<Vars, double> refSelect(const VariablesCriterionList& l, double th)
{
    if (l.empty()) return {};
    for (size_t i = l.size() - 1; i > 0; i--) if (l[i - 1].second - l[i].second >= th) return l[i];
    return l.back();
}
static std::string show(const Vars& v) { std::string s; for (size_t i : v) s += (s.empty() ? "" : "+") + std::to_string(i); return "{" + s + "}"; }
// greedy path by definition; crit gives the criterion of a set of variables
static void verify(const std::string& g, const Vars& vars, const std::vector<std::pair<Vars, double>>& evals, const VariablesCriterionList& l, const Vars& sel, double th)
{
    size_t K = vars.size(), pos = 0;
    expect(g, evals.size() == K * (K + 1) / 2, "number of models evaluated");
    expect(g, l.size() == evals.size(), "number of models recorded");
    if (evals.size() != K * (K + 1) / 2 || l.size() != evals.size()) return;
    Vars cur, rest = vars;
    for (size_t lev = 0; lev < K; lev++)
    {
        size_t best = 0; std::vector<std::pair<Vars, double>> now;
        for (size_t j = 0; j < rest.size(); j++)
        {
            Vars m = cur; m.push_back(rest[j]);
            expect(g, evals[pos + j].first == m, "level " + std::to_string(lev) + ": model " + show(evals[pos + j].first) + ", specified " + show(m));
            now.push_back(evals[pos + j]);
            if (evals[pos + j].second < evals[pos + best].second) best = j;
        }
        // recorded: the models of the level, from the worst criterion to the best
        std::multiset<std::pair<Vars, double>> a(now.begin(), now.end()), b(l.begin() + pos, l.begin() + pos + rest.size());
        expect(g, a == b, "level " + std::to_string(lev) + ": the recorded models are those evaluated, with their criteria");
        for (size_t j = 1; j < rest.size(); j++) expect(g, l[pos + j - 1].second >= l[pos + j].second, "level " + std::to_string(lev) + ": from the worst to the best");
        pos += rest.size();
        cur.push_back(rest[best]); rest.erase(rest.begin() + best);
    }
    expect(g, sel == refSelect(l, th).first, "selected " + show(sel) + ", specified " + show(refSelect(l, th).first));
}
static void greedy(long it)
{
    size_t K = it < 3 ? it : I(0, 7);
    Vars vars; for (size_t i = 0; i < K; i++) vars.push_back(i * I(1, 1) + 1);
    if (B(0.4)) { for (auto& v : vars) v = v * 3 + 2; std::shuffle(vars.begin(), vars.end(), rng()); }
    std::map<size_t, double> gain; for (size_t v : vars) gain[v] = U(-2, 30);
    double inter = U(0, 3); int kind = I(0, 3); unsigned long salt = rng()();
    Recorder r;
    r.f = [=](Vars v) {
        double c = 100; for (size_t q : v) c -= gain.at(q);
        c += inter * v.size() * v.size();
        if (kind == 1) c = std::floor(c / 10);
        if (kind == 2) { unsigned long h = salt; for (size_t q : v) h = h * 1000003ul + q; c = (h % 1000) / 7.0; }
        if (kind == 3 && v.size() > 2) c = DBL_MAX;
        return c; };
    double th = B(0.2) ? 1e9 : (B(0.2) ? U(-20, 0) : U(0, 15));
    std::string text = "variables=" + show(vars) + " kind=" + std::to_string(kind) + " threshold=" + num(th);
    at("greedy " + text); sample(text);
    VariableForwardSelector s(vars, th);
    Vars sel = s.optimize(&r);
    verify("greedy", vars, r.evals, s.indepVarsCriterion(), sel, th);
    for (size_t k = 0; k < r.evals.size(); k++)
    {
        Recorder q = r; q.evals.clear(); q.stopAt = k;
        VariableForwardSelector z(vars, th);
        at("greedy stopped at model " + std::to_string(k) + " " + text);
        Vars v = z.optimize(&q);
        expect("stopped", v == vars, "a cancelled selection keeps the given variables");
        expect("stopped", q.evals.size() == k + 1, "no model is evaluated after the cancellation");
    }
}
static void gwr(long it)
{
    if (it % 3) return;
    Data d = gen(24, 36, 2, 5);
    d.adaptive = false; d.bw = 1e9; d.geo = false;
    double th = U(0, 6); int t = B() ? 0 : 3;
    at("gwr threshold=" + num(th) + " threads=" + std::to_string(t) + " " + d.text);
    GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); par(g, t);
    g.setIsAutoselectIndepVars(true); g.setIndepVarSelectionThreshold(th);
    mat betas = g.fit();
    Vars vars; for (size_t j = 1; j < d.k; j++) vars.push_back(j);
    VariablesCriterionList l = g.indepVarsSelectionCriterionList();
    auto aicc = [&](const Vars& v) {
        mat x(d.n, v.size() + 1); x.col(0) = d.x.col(0); for (size_t j = 0; j < v.size(); j++) x.col(j + 1) = d.x.col(v[j]);
        Fit f = refFit(x, d.y, [&](uword i) { return vec(d.n, arma::fill::ones); });
        return f.ok ? refDiag(d.y, f.rss, f.trS, f.trStS).AICc : DBL_MAX; };
    // the same greedy search over the reference criteria
    Recorder r; r.f = aicc;
    std::vector<std::pair<Vars, double>> want; Vars cur, rest = vars; 
    while (!rest.empty())
    {
        std::vector<std::pair<Vars, double>> lev;
        for (size_t v : rest) { Vars m = cur; m.push_back(v); lev.push_back({m, aicc(m)}); }
        size_t best = 0; for (size_t j = 1; j < lev.size(); j++) if (lev[j].second < lev[best].second) best = j;
        cur.push_back(rest[best]); rest.erase(rest.begin() + best);
        std::stable_sort(lev.begin(), lev.end(), [](auto& a, auto& b) { return a.second > b.second; });
        want.insert(want.end(), lev.begin(), lev.end());
    }
    expect("gwr", l.size() == want.size(), "number of recorded models");
    for (size_t i = 0; i < l.size() && i < want.size(); i++)
    {
        expect("gwr", l[i].first == want[i].first, "model " + show(l[i].first) + ", specified " + show(want[i].first));
        expectNear("gwr", l[i].second, want[i].second, "AICc of model " + show(l[i].first), 1e-6);
    }
    Vars sel = refSelect(l, th).first;
    expect("gwr", g.selectedVariables() == sel, "selected " + show(g.selectedVariables()) + ", specified " + show(sel));
    mat x(d.n, sel.size() + 1); x.col(0) = d.x.col(0); for (size_t j = 0; j < sel.size(); j++) x.col(j + 1) = d.x.col(sel[j]);
    Fit f = refFit(x, d.y, [&](uword i) { return d.w(i); });
    if (f.ok) expectMat("gwr", betas, f.betas, "coefficients of the selected variables", 1e-6);
}
int main(int argc, char** argv) { return run(argc, argv, {{"greedy", greedy}, {"gwr", gwr}}); }
