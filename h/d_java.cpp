// C15, Java interface: a JVM in this process runs org.coinor.Ipopt (from the repository) with a subclass whose methods are the harness's functions.
#include "cif.hpp"
#include <jni.h>
static JNIEnv* E; static QMon* g_t; static jobject g_obj; static const Plan* g_plan;
struct DA { JNIEnv* e; jdoubleArray a; jdouble* p; DA(JNIEnv* e_, jdoubleArray a_) : e(e_), a(a_), p(a_ ? e_->GetDoubleArrayElements(a_, NULL) : NULL) {} ~DA() { if( a ) e->ReleaseDoubleArrayElements(a, p, 0); } int len() { return a ? e->GetArrayLength(a) : 0; } };
struct IA { JNIEnv* e; jintArray a; jint* p; IA(JNIEnv* e_, jintArray a_) : e(e_), a(a_), p(a_ ? e_->GetIntArrayElements(a_, NULL) : NULL) {} ~IA() { if( a ) e->ReleaseIntArrayElements(a, p, 0); } int len() { return a ? e->GetArrayLength(a) : 0; } };
static void lens(const char* w, int a, int want) { if( a != want ) out().viol("", "java-array-length", fmt("%s: array of length %d, expected %d", w, a, want)); }
extern "C" {
JNIEXPORT jint JNICALL JNI_OnLoad_ipopt(JavaVM*, void*) { return JNI_VERSION_1_8; }
JNIEXPORT jboolean JNICALL Java_Fwd_get_1bounds_1info(JNIEnv* e, jobject, jint n, jdoubleArray a, jdoubleArray b, jint m, jdoubleArray c, jdoubleArray d) { DA A(e, a), B(e, b), C(e, c), D(e, d); lens("x_l", A.len(), n); lens("g_u", D.len(), m); return g_t->MonTNLP::get_bounds_info(n, A.p, B.p, m, C.p, D.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_get_1starting_1point(JNIEnv* e, jobject, jint n, jboolean ix, jdoubleArray x, jboolean iz, jdoubleArray zl, jdoubleArray zu, jint m, jboolean il, jdoubleArray l) { DA X(e, x), ZL(e, zl), ZU(e, zu), L(e, l); lens("x", X.len(), n); lens("lambda", L.len(), m); return g_t->get_starting_point(n, ix, X.p, iz, ZL.p, ZU.p, m, il, L.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_eval_1f(JNIEnv* e, jobject, jint n, jdoubleArray x, jboolean nx, jdoubleArray v) { DA X(e, x), V(e, v); return g_t->eval_f(n, X.p, nx, *V.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_eval_1grad_1f(JNIEnv* e, jobject, jint n, jdoubleArray x, jboolean nx, jdoubleArray v) { DA X(e, x), V(e, v); lens("grad", V.len(), n); return g_t->eval_grad_f(n, X.p, nx, V.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_eval_1g(JNIEnv* e, jobject, jint n, jdoubleArray x, jboolean nx, jint m, jdoubleArray v) { DA X(e, x), V(e, v); lens("g", V.len(), m); return g_t->eval_g(n, X.p, nx, m, V.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_eval_1jac_1g(JNIEnv* e, jobject, jint n, jdoubleArray x, jboolean nx, jint m, jint k, jintArray i, jintArray j, jdoubleArray v) { DA X(e, x), V(e, v); IA I(e, i), J(e, j); return g_t->eval_jac_g(n, v ? X.p : NULL, nx, m, k, I.p, J.p, V.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_eval_1h(JNIEnv* e, jobject, jint n, jdoubleArray x, jboolean nx, jdouble of, jint m, jdoubleArray l, jboolean nl, jint k, jintArray i, jintArray j, jdoubleArray v) { DA X(e, x), V(e, v), L(e, l); IA I(e, i), J(e, j); return g_t->eval_h(n, v ? X.p : NULL, nx, of, m, v ? L.p : NULL, nl, k, I.p, J.p, V.p); }
JNIEXPORT jboolean JNICALL Java_Fwd_intermediate_1callback(JNIEnv* e, jobject o, jint mode, jint it, jdouble a, jdouble b, jdouble c, jdouble d, jdouble f, jdouble g, jdouble h, jdouble i, jint ls, jlong ipd, jlong ipc) {
   int n = g_t->p->n, m = g_t->p->m;
   g_t->query = [=](int w, bool sc, unsigned, Number** A, Number** B) {
      jdoubleArray a[5], b[2]; for( int i = 0; i < 5; ++i ) { a[i] = A[i] ? e->NewDoubleArray(n) : NULL; if( a[i] ) e->SetDoubleArrayRegion(a[i], 0, n, A[i]); } for( int i = 0; i < 2; ++i ) { b[i] = B[i] ? e->NewDoubleArray(m) : NULL; if( b[i] ) e->SetDoubleArrayRegion(b[i], 0, m, B[i]); }
      jclass c = e->GetObjectClass(o); jboolean ok;
      if( w == 0 ) ok = e->CallBooleanMethod(o, e->GetMethodID(c, "get_curr_iterate", "(JJZI[D[D[DI[D[D)Z"), ipd, ipc, (jboolean) sc, n, a[0], a[1], a[2], m, b[0], b[1]);
      else ok = e->CallBooleanMethod(o, e->GetMethodID(c, "get_curr_violations", "(JJZI[D[D[D[D[DI[D[D)Z"), ipd, ipc, (jboolean) sc, n, a[0], a[1], a[2], a[3], a[4], m, b[0], b[1]);
      for( int i = 0; i < 5; ++i ) if( a[i] ) { e->GetDoubleArrayRegion(a[i], 0, n, A[i]); e->DeleteLocalRef(a[i]); } for( int i = 0; i < 2; ++i ) if( b[i] ) { e->GetDoubleArrayRegion(b[i], 0, m, B[i]); e->DeleteLocalRef(b[i]); }
      e->DeleteLocalRef(c); return (bool) ok; };
   return g_t->intermediate_callback((Ipopt::AlgorithmMode) mode, it, a, b, c, d, f, g, h, i, ls, NULL, NULL);
}
JNIEXPORT jboolean JNICALL Java_Fwd_get_1scaling_1parameters(JNIEnv* e, jobject, jdoubleArray o, jint n, jdoubleArray x, jint m, jdoubleArray g, jbooleanArray u) { DA O(e, o), X(e, x), G(e, g); jboolean b[2]; bool ux = false, ug = false; bool r = g_t->MonTNLP::get_scaling_parameters(*O.p, ux, n, X.p, ug, m, G.p); b[0] = ux; b[1] = ug; e->SetBooleanArrayRegion(u, 0, 2, b); return r; }
JNIEXPORT jint JNICALL Java_Fwd_get_1number_1of_1nonlinear_1variables(JNIEnv*, jobject) { return g_t->get_number_of_nonlinear_variables(); }
JNIEXPORT jboolean JNICALL Java_Fwd_get_1list_1of_1nonlinear_1variables(JNIEnv* e, jobject, jint k, jintArray p) { IA P(e, p); return g_t->get_list_of_nonlinear_variables(k, P.p); }
}
static Vec getArr(const char* name, jclass c, jobject o) { jdoubleArray a = (jdoubleArray) E->CallObjectMethod(o, E->GetMethodID(c, name, "()[D")); Vec v(E->GetArrayLength(a)); E->GetDoubleArrayRegion(a, 0, (jsize) v.size(), v.data()); E->DeleteLocalRef(a); return v; }
static void c15j(Rng& r, long) {
   g_desc = getenv("MON_DESC") != NULL;
   Plan q = genPlan(r, nullptr); q.cb = true; q.nG = q.nObj = q.nLam = q.nZl = q.nZu = false; q.optFile = q.optFile && q.j.c.s("nlp_scaling_method", "") != "user-scaling" && !q.j.c.get("hessian_approximation");
   if( E->PushLocalFrame(200) < 0 ) exit(7);
   jclass c = E->FindClass("Fwd"); jobject o = c ? E->NewObject(c, E->GetMethodID(c, "<init>", "()V")) : NULL;
   if( !o ) { E->ExceptionDescribe(); out().viol("", "java-create", "cannot create the Java object"); return; }
   auto str = [&](const std::string& s) { return E->NewStringUTF(s.c_str()); };
   auto setS = [&](const std::string& k, std::string v) { return (bool) E->CallBooleanMethod(o, E->GetMethodID(c, "setStringOption", "(Ljava/lang/String;Ljava/lang/String;)Z"), str(k), str(v)); };
   auto setN = [&](const std::string& k, double v) { return (bool) E->CallBooleanMethod(o, E->GetMethodID(c, "setNumericOption", "(Ljava/lang/String;D)Z"), str(k), v); };
   auto setI = [&](const std::string& k, int v) { return (bool) E->CallBooleanMethod(o, E->GetMethodID(c, "setIntegerOption", "(Ljava/lang/String;I)Z"), str(k), v); };
   if( r.chance(0.1) && setI("max_iter", 5) ) out().viol("", "java-option", "option accepted before create()");
   Nlp& p = q.j.p; bool twice = r.chance(0.1);   // create() may be called again
   for( int k = 0; k <= twice; ++k ) { bool last = k == twice; if( !E->CallBooleanMethod(o, E->GetMethodID(c, "create", "(IIIII)Z"), last ? p.n : 3, last ? p.m : 2, last ? (int) p.jac.size() : 4, last ? (int) p.hes.size() : 1, p.fortran ? 1 : 0) ) { out().viol("", "java-create", "create() failed"); return; } }
   SmartPtr<IpoptApplication> rapp = new IpoptApplication(); rapp->Options()->SetIntegerValue("print_level", 0); rapp->Options()->SetStringValue("sb", "yes"); setI("print_level", 0); setS("sb", "yes");
   int solves = r.ri(1, 2);
   for( int s = 0; s < solves; ++s ) {
      if( s ) { Plan q2 = genPlan(r, &q); q2.cb = true; q2.optFile = false; q2.nG = q2.nObj = q2.nLam = q2.nZl = q2.nZu = false; q = q2; }
      writeOptFile(q); q.j.extra = r.chance(0.3);
      for( size_t i = 0; i < q.j.c.o.size(); ++i ) if( !viaFile(q, i) ) {
         auto& op = q.j.c.o[i]; bool b = op.t == 's' ? rapp->Options()->SetStringValue(op.name, op.s) : op.t == 'n' ? rapp->Options()->SetNumericValue(op.name, op.d) : rapp->Options()->SetIntegerValue(op.name, op.i);
         std::string v = op.s; if( op.t == 's' && r.chance(0.2) ) for( auto& ch : v ) ch = (char) toupper(ch);
         bool a = op.t == 's' ? setS(op.name, v) : op.t == 'n' ? setN(op.name, op.d) : setI(op.name, op.i);
         if( a != b ) out().viol("", "java-option", fmt("setting option %s returned %d, C++ interface %d", op.name.c_str(), a, b));
      }
      if( r.chance(0.2) && (setS("mu_strategy", "nonsense") || setN("tol", -1.) || setI("max_iter", -5) || setS("no_such_option", "x")) ) out().viol("", "java-option", "an invalid option setting was reported as successful");
      Ref ref; { g_plan = &q; ref = reference(q, *rapp); }
      SmartPtr<QMon> t = new QMon(p, q.j.c); armQ(*t, q); t->descOn = g_desc; g_t = GetRawPtr(t); t->nInfo = 1;
      int ret = E->CallIntMethod(o, E->GetMethodID(c, "OptimizeNLP", "()I"));
      if( E->ExceptionCheck() ) { E->ExceptionDescribe(); E->ExceptionClear(); out().viol("", "java-exception", "a Java exception escaped from the native interface | " + clip(q)); break; }
      Arrays a = startArrays(q); a.x = getArr("getVariableValues", c, o); a.g = getArr("getConstraintValues", c, o); a.lam = getArr("getConstraintMultipliers", c, o); a.zl = getArr("getLowerBoundMultipliers", c, o); a.zu = getArr("getUpperBoundMultipliers", c, o);
      a.obj = E->CallDoubleMethod(o, E->GetMethodID(c, "getObjectiveValue", "()D"));
      if( E->CallIntMethod(o, E->GetMethodID(c, "getStatus", "()I")) != ret ) out().viol("", "java-status", "getStatus() differs from the value returned by OptimizeNLP()");
      judge("java", q, ref, *t, ret, a, ref.fin.count ? a : a);
      out().sig(hmix(hmix(p.sig(), q.j.c.sig()), 7)); out().sample("java " + clip(q));
      g_t = nullptr;
   }
   E->CallVoidMethod(o, E->GetMethodID(c, "dispose", "()V"));
   E->PopLocalFrame(NULL);
   unlink("ipopt.opt");
}
int main(int argc, char** argv) {
   Args a = parse(argc, argv);
   std::string cp = "-Djava.class.path=" + a.kv["classes"];
   JavaVMOption opt[4]; opt[0].optionString = (char*) cp.c_str(); opt[1].optionString = (char*) "-Xcheck:jni"; opt[2].optionString = (char*) "-Xmx256m"; opt[3].optionString = (char*) "-XX:+UseSerialGC";
   JavaVMInitArgs ia; ia.version = JNI_VERSION_1_8; ia.nOptions = 4; ia.options = opt; ia.ignoreUnrecognized = JNI_FALSE;
   JavaVM* vm; if( JNI_CreateJavaVM(&vm, (void**) &E, &ia) != JNI_OK ) { fprintf(stderr, "no JVM\n"); return 7; }
   std::string d = a.scratch + fmt("/cif%d", (int) getpid()); mkdir(d.c_str(), 0700); if( chdir(d.c_str()) ) return 7;
   runCases(a, c15j);
   if( chdir("/") == 0 ) rmdir(d.c_str());
   fflush(NULL); _exit(0);
}
