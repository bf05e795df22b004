"""C22: the integrator's parts."""
M = "src/maq.cpp"


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, *e): return case(id, "C22", "alarm", *e)
def same(id, *e): return case(id, ["C22", "C10", "C09"], "quiet", *e)


PUSHA = "region_stack.push({a, c, d, fa, fc, fd, r2});"
PUSHB = "region_stack.push({c, b, e, fc, fb , fe, r3});"
FIRST = "region_stack.push({a, b, c, fa, fb, fc, r1});"
ACC = "integral = integral + q2 + (q2 - q1)/15;"
TEST = "if (abserr <= std::abs(tol * q2) || abserr <= std::abs(tol * integral)) {"
FD = "double fd = integrand(x_from_t(d))/(d*d);"
FE = "double fe = integrand(x_from_t(e))/(e*e);"
CASES = [
    # ---- bugs
    bug("m22-weight-d", (M, FD, "double fd = integrand(x_from_t(d))/d;")),
    bug("m22-fe-at-d", (M, FE, "double fe = integrand(x_from_t(d))/(e*e);")),
    bug("m22-d-not-middle", (M, "double d = (a + c)/2.0;", "double d = (a + b)/4.0;")),
    bug("m22-r3-wrong", (M, "double r3 = quad(c, b, e, fc, fb, fe);", "double r3 = quad(c, b, e, fb, fc, fd);")),
    bug("m22-r2-fa-fc", (M, "double r2 = quad(a, c, d, fa, fc, fd);", "double r2 = quad(a, c, d, fa, fb, fd);")),
    bug("m22-extrapolate-14", (M, ACC, "integral = integral + q2 + (q2 - q1)/14;")),
    bug("m22-extrapolate-sign", (M, ACC, "integral = integral + q2 - (q2 - q1)/15;")),
    bug("m22-overwritten", (M, ACC, "integral = q2 + (q2 - q1)/15;")),
    bug("m22-coarse-added", (M, ACC, "integral = integral + q1 + (q2 - q1)/15;")),
    bug("m22-half-lost", (M, PUSHB + "\n                    " + PUSHA, PUSHA)),
    bug("m22-half-twice", (M, PUSHA, PUSHB, 0)),
    bug("m22-half-with-fa", (M, PUSHB, "region_stack.push({c, b, e, fa, fb , fe, r3});", 1)),
    bug("m22-half-result", (M, PUSHA, "region_stack.push({a, c, d, fa, fc, fd, r3});", 1)),
    bug("m22-half-middle", (M, PUSHA, "region_stack.push({a, c, e, fa, fc, fd, r2});", 0)),
    bug("m22-first-middle", (M, "double c = (a + b)/2.0;\n            double fc = integrand(x_from_t(c))/(c*c);",
                             "double c = (a + b)/4.0;\n            double fc = integrand(x_from_t(c))/(c*c);")),
    bug("m22-first-fb", (M, "double fb = integrand(x_from_t(b))/(b*b);", "double fb = integrand(x_from_t(b));")),
    bug("m22-first-fa", (M, "(a == 0 ? 1 : a*a)", "(a == 0 ? 1 : a)")),
    bug("m22-quad-weights", (M, "(fa + 4 * fc + fb)", "(fa + 3 * fc + fb)")),
    bug("m22-transform", (M, "1.0/t - 1.0", "1.0/t + 1.0")),
    bug("m22-no-test", (M, TEST, "if (abserr <= std::abs(tol * q2) || abserr <= std::abs(q2)) {")),
    bug("m22-test-q1", (M, TEST, "if (abserr <= std::abs(tol * q2) || q2 - q1 <= std::abs(tol * integral)) {")),
    bug("m22-test-sign", (M, "abserr = std::abs(q2 - q1);", "abserr = q2 - q1;")),
    bug("m22-test-sum", (M, "abserr = std::abs(q2 - q1);", "abserr = std::abs(r2 - q1);")),
    bug("m22-skip-small", (M, "double q1 = r1;", "double q1 = r1;\n                if (b - a < tol * tol) { continue; }")),
    bug("m22-stops-early", (M, "while (!region_stack.empty()) {", "while (region_stack.size() > 1 || integral == 0) {")),
    bug("m22-stops-small", (M, "double q1 = r1;", "double q1 = r1;\n                if (c < 1e-9) { break; }")),
    bug("m22-search-ends-or", (M, "if (fb <= std::numeric_limits<double>::epsilon() && \n                fc <=",
                               "if (fb <= std::numeric_limits<double>::epsilon() || \n                fc <=", 0)),
    bug("m22-search-ends-b", (M, "if (fb <= std::numeric_limits<double>::epsilon() && \n                fc <= std::numeric_limits<double>::epsilon())",
                              "if (std::min(fb, fc) <= std::numeric_limits<double>::epsilon())", 1)),
    bug("m22-search-a", (M, "a = (float(i) - 1.0) / intervals;", "a = float(i) / intervals;", 0)),
    bug("m22-search-b", (M, "b = 1.0 - (float(i) - 1.0) / intervals;", "b = 1.0 - (float(i) - 2.0) / intervals;", 0)),
    bug("m22-search-swap", (M, "a = 1.0 - (float(i) + 1.0) / intervals;", "a = (float(i) + 1.0) / intervals;", 1)),
    bug("m22-search-wide", (M, "a = (float(i) - 1.0) / intervals;\n                            b = (float(i) + 1.0) / intervals;",
                            "a = (float(i) - 3.0) / intervals;\n                            b = (float(i) + 3.0) / intervals;", 0)),
    bug("m22-scattered-b", (M, "b = 2.0 * c;", "b = 1.0 - c;", 0)),
    bug("m22-scattered-a", (M, "a = 2.0 * c - 1.0;", "a = c;", 0)),
    # ---- the same
    same("m22-q-order", (M, PUSHB + "\n                    " + PUSHA, PUSHA + "\n                    " + PUSHB)),
    same("m22-algebra", (M, ACC, "integral += (16 * q2 - q1)/15;")),
    same("m22-algebra2", (M, ACC, "integral += r2;\n                    integral += r3 + (r2 + r3 - q1) / 15;")),
    same("m22-tests-split", (M, TEST, "const bool rel = abserr <= std::abs(tol * q2);\n                if (rel || abserr <= std::abs(tol * integral)) {")),
    same("m22-tests-one", (M, TEST, "if (abserr <= std::abs(tol * q2)) {")),
    same("m22-tests-tolabs", (M, TEST, "if (abserr <= tol * std::abs(q2) || abserr <= tol * std::abs(integral)) {")),
    same("m22-tests-not", (M, TEST, "if (!(abserr > std::abs(tol * q2) && abserr > std::abs(tol * integral))) {")),
    same("m22-middle", (M, "double d = (a + c)/2.0;", "double d = a + (c - a)/2.0;")),
    same("m22-middle-half", (M, "double e = (b + c)/2.0;", "double e = 0.5 * (b + c);")),
    same("m22-lambda", (M, FD, "auto g = [&](double t) { return integrand(x_from_t(t))/(t*t); };\n                double fd = g(d);"),
         (M, FE, "double fe = g(e);")),
    same("m22-rename", (M, "double fa, fb, fc; \n                double r;", "double left, right, mid; \n                double r;"),
         (M, "fa = todo.fa;", "fa = todo.left;"), (M, "fb = todo.fb;", "fb = todo.right;"), (M, "fc = todo.fc;", "fc = todo.mid;")),
    same("m22-vector", (M, "std::stack<maq_todo> region_stack;", "std::vector<maq_todo> region_stack;"), (M, "#include <stack>", "#include <vector>"),
         (M, FIRST, FIRST.replace("push", "push_back")), (M, PUSHA, PUSHA.replace("push", "push_back"), 0), (M, PUSHA, PUSHA.replace("push", "push_back"), 0),
         (M, PUSHB, PUSHB.replace("push", "push_back"), 0), (M, PUSHB, PUSHB.replace("push", "push_back"), 0),
         (M, "maq_todo todo = region_stack.top();\n                region_stack.pop();\n                a = todo.a;",
          "maq_todo todo = region_stack.back();\n                region_stack.pop_back();\n                a = todo.a;")),
    same("m22-named", (M, FIRST, "maq_todo whole = {a, b, c, fa, fb, fc, r1};\n            region_stack.push(whole);")),
    same("m22-assigned", (M, FIRST, "maq_todo whole;\n            whole.a = a; whole.b = b; whole.c = c;\n            whole.fa = fa; whole.fb = fb; whole.fc = fc; whole.r = r1;\n            region_stack.push(whole);")),
    same("m22-loop-form", (M, "while (!region_stack.empty()) {", "while (region_stack.size() > 0) {")),
    same("m22-for", (M, "while (!region_stack.empty()) {", "for ( ; !region_stack.empty(); ) {")),
    same("m22-search-step", (M, "a = (float(i) - 1.0) / intervals;\n                            b = (float(i) + 1.0) / intervals;",
                             "a = c - 1.0 / intervals;\n                            b = c + 1.0 / intervals;", 0)),
    same("m22-search-const", (M, "double a=0; // Maps to x=∞\n            double b=1.0; // Maps to x=0\n            double c = (a + b)/2.0;\n",
                              "double a=0; // Maps to x=∞\n            double b=1.0; // Maps to x=0\n            double c = 0.5;\n", 0)),
    same("m22-search-nothing", (M, "if (fb <= std::numeric_limits<double>::epsilon() && \n                fc <= std::numeric_limits<double>::epsilon())",
                                "const double nothing = std::numeric_limits<double>::epsilon();\n            if (!(fb > nothing || fc > nothing))", 1)),
    same("m22-scattered-half", (M, "if (c < 0.5) {\n                    a = 0.0;\n                    b = 2.0 * c;",
                                "if (c <= 0.5) {\n                    a = 0.0;\n                    b = c + c;", 0)),
]
CC, ST, RL = "src/caching.cpp", "src/structure.cpp", "src/replaceable.h"


def quiet(id, prop, *e): return case(id, prop, "quiet", *e)


CASES += [
    same("m22-do-once", (M, PUSHA, "do { " + PUSHA + " } while (false);", 1)),
    same("m22-both-in-a-loop", (M, PUSHB + "\n                    " + PUSHA,
                                "for (const maq_todo &half : {maq_todo{c, b, e, fc, fb, fe, r3}, maq_todo{a, c, d, fa, fc, fd, r2}}) {\n                        region_stack.push(half);\n                    }")),
    quiet("m30-init-once", ["C30", "C06", "C05"], (CC, "Private::Init_Caching();\n            omp_set_lock(&Private::lock);\n            for", "do { Private::Init_Caching(); } while (false);\n            omp_set_lock(&Private::lock);\n            for")),
    quiet("m26-lambda", ["C26", "C15"], (ST, "errors[i] = std::current_exception();", "[&]() { errors[i] = std::current_exception(); }();", 0)),
    quiet("m26-helper", ["C26", "C15"], (ST, "errors[i] = std::current_exception();", "auto keep = [&errors] (size_t at) { errors[at] = std::current_exception(); };\n                    keep(i);", 0)),
]
