/* C27: option parsing against a model that walks the arguments once */
#include "common.h"
#ifndef VK_NATIVE
#undef fprintf
#define fprintf(...) ((void)0)
#endif
#include "src/util/getopt_r.c"
#undef fprintf
#ifndef NA
#define NA 3      /* arguments after the program name */
#define NL 3      /* characters of an argument */
#endif
static int flagv;
#ifdef VK_NATIVE
#define TL 24
static struct option LO[8];
static const char *const NAMES[] = {"a", "aa", "b", "ab", "ba", "bab", "abababab", "abababa", "aaaaaaaaa", "b-a", "long-option", "long", "c", "x", "a.b"};
static void long_table(void) {   /* any subset of names, in any order, prefixes of each other included */
  int n = vk_in("lopts", 0, 7); bool used[15] = {0}; memset(LO, 0, sizeof LO);
  for(int i = 0; i < n; i++) { int k = vk_in("ln", 0, 14); while(used[k]) k = (k + 1) % 15; used[k] = true; bool fl = vk_in("lf", 0, 2) == 0;
    LO[i] = (struct option){NAMES[k], vk_in("la", 0, 2), fl ? &flagv : NULL, fl ? 40 + i : 'A' + i}; }
}
static void long_arg(char *t) {
  strcpy(t, "--"); strcat(t, NAMES[vk_in("an", 0, 14)]); size_t l = strlen(t);
  switch(vk_in("near", 0, 5)) { case 0: t[l - 1] = 0; break; case 1: strcat(t, "a"); break; case 2: if(l > 4) t[vk_in("cut", 3, l - 1)] = 0; break; }
  switch(vk_in("eq", 0, 3)) { case 0: strcat(t, "="); break; case 1: strcat(t, "=a-b="); break; }
}
#else
#define TL (NL + 1)
static const struct option LO[] = {{"a", no_argument, NULL, 'a'}, {"aa", required_argument, NULL, 'B'}, {"b", optional_argument, NULL, 'C'}, {"ab", no_argument, &flagv, 42}, {"ba", required_argument, &flagv, 43}, {0}};
#endif
static char T[NA][TL]; static char *A[NA + 2], *E[NA + 2]; static int na; static GetoptState st;
static const char *OS; static bool lng, perm;
/* the model: position, and the outcome of one step */
static int m_i; static const char *m_in;   /* m_in: inside a cluster */
static int x_r, x_opt, x_long, x_flag; static const char *x_arg;
static bool eqn(const char *s, const char *name) { size_t i = 0; while(name[i] && s[i] == name[i]) i++; return !name[i] && (!s[i] || s[i] == '='); }
static void step(void) {
  int first = m_i, k = m_i, used = 1; x_r = -1; x_opt = 0; x_long = -1; x_arg = NULL; x_flag = 0;
  if(!m_in) {
    if(perm) while(E[k] && (E[k][0] != '-' || !E[k][1])) k++;
    char *o = E[k];
    if(!o || o[0] != '-' || !o[1]) { m_i = first; return; }          /* only operands are left */
    if(o[1] == '-' && !o[2]) { x_r = -2; goto move; }                 /* "--" ends the options */
    if(o[1] == '-') {
      if(!lng) { m_i = first; return; }
      char *eq = strchr(o, '='); int hit = -1; for(int i = 0; LO[i].name; i++) if(hit < 0 && eqn(o + 2, LO[i].name)) hit = i;
      if(hit < 0) x_r = '?';
      else if(LO[hit].has_arg == no_argument && eq) { x_r = '?'; x_opt = LO[hit].flag ? 0 : LO[hit].val; }
      else if(LO[hit].has_arg == required_argument && !eq && !E[k + 1]) { x_r = '?'; x_opt = LO[hit].flag ? 0 : LO[hit].val; }
      else { x_long = hit; if(eq) x_arg = eq + 1; else if(LO[hit].has_arg == required_argument) { x_arg = E[k + 1]; used = 2; } if(LO[hit].flag) { x_flag = LO[hit].val; x_r = 0; } else x_r = LO[hit].val; }
      goto move;
    }
    m_in = o + 1;
  }
  { char c = *m_in++; x_opt = c; const char *d = NULL; for(const char *s = OS; *s; s++) if(*s == c && c != ':') { d = s; break; }
    bool done = !*m_in;
    if(!d) x_r = '?';
    else { x_r = c;
      if(d[1] == ':') {
        if(*m_in) x_arg = m_in;
        else if(d[2] == ':') { if(E[k + 1] && E[k + 1][0] != '-') { x_arg = E[k + 1]; used = 2; } }
        else if(E[k + 1]) { x_arg = E[k + 1]; used = 2; }
        else x_r = OS[0] == ':' ? ':' : '?';
        done = true; } }
    if(done) m_in = NULL; else used = 0;
  }
move: {
    /* the parsed arguments move before the operands that were passed over; an unfinished cluster moves too but stays current */
    int mv = used ? used : 1, n = k - first; char *o[2] = {E[k], mv > 1 ? E[k + 1] : NULL};
    for(int i = 0; i < NA; i++) if(i < n) E[k + mv - 1 - i] = E[k - 1 - i];
    E[first] = o[0]; if(mv > 1) E[first + 1] = o[1];
    m_i = first + used; if(x_r == -2) x_r = -1; }
}
static void setup(void) {
  static const char *os[] = {"ab:c::", ":ab:c::", "", ":", "cb:ba"}; int oi = VK_IN_RANGE("os", 0, 4); OS = os[0]; for(int i = 1; i < 5; i++) if(oi == i) OS = os[i];
  lng = VK_IN_BOOL("long"); perm = VK_IN_BOOL("perm"); na = VK_IN_RANGE("na", 0, NA); A[0] = E[0] = "prog";
  for(int i = 0; i < NA; i++) { vk_in_str("arg", T[i], NL + 1, "-ab=:c-x"); VK_NATIVE_ONLY(if(vk_in("lk", 0, 3) == 0) long_arg(T[i]);) A[i + 1] = E[i + 1] = i < na ? T[i] : NULL; }
  VK_NATIVE_ONLY(long_table();) st.permute_args = perm; st.report_errors = VK_NATIVE_ONLY(0 *) VK_IN_BOOL("rep");
}
static char **arr;
static int one(void) {
  flagv = 0; int r = getopt_long_r(arr, OS, lng ? LO : NULL, &st); step();
  VK_ENSURE("the next option, an error or the end is reported", r == x_r);
  VK_ENSURE("the option's argument is reported", st.optarg == x_arg);
  if(r != -1) VK_ENSURE("the option letter is reported", st.optopt == x_opt);
  VK_ENSURE("the long option is reported", st.long_index == x_long); VK_ENSURE("the long option's flag is set", flagv == x_flag);
  VK_ENSURE("the next argument to parse, or the first operand, is current", st.optind == m_i);
  for(int i = 0; i < NA + 1; i++) if(i <= na) VK_ENSURE("operands move behind the parsed options and keep their order", arr[i] == E[i]);
  VK_ENSURE("the argument list stays terminated", arr[na + 1] == NULL);
  return r;
}
void h_getopt(void) {   /* one call from the start of an argument or inside a cluster */
  setup(); arr = A; int op = VK_IN_RANGE("optind", 0, NA + 1); VK_REQUIRE(op <= na + 1); st.optind = op; st.next_char = NULL; m_i = op < 1 ? 1 : op; m_in = NULL;
  int in = VK_IN_RANGE("in", 0, NL); if(in > 0 && op > 0 && op <= na) { char *o = A[op]; size_t l = strlen(o); if(o[0] == '-' && l > 1 && o[1] != '-' && in >= 2 && in < (int)l) { st.next_char = o + in; m_in = o + in; } }
  one(); VK_REACH("getopt end");
}
void h_getopt_null(void) { setup(); VK_ENSURE("missing arguments end the parse", getopt_long_r(A, NULL, LO, &st) == -1 && getopt_long_r(A, "a", LO, NULL) == -1); VK_REACH("null end"); }
#ifdef VK_NATIVE
void h_getopt_run(void) {   /* whole command lines, two parsers side by side */
  setup(); arr = malloc((na + 2) * sizeof *arr); memcpy(arr, A, (na + 2) * sizeof *arr); st.next_char = NULL; st.optind = vk_in("oi", 0, 1); m_i = 1; m_in = NULL; GetoptState o = {0}; char *b[] = {"x", "-ab", "-c", NULL}; int on = 0;
  for(int n = 0; n < 3 * NA * NL + 3; n++) { if(one() == -1) break; if(vk_in("other", 0, 1)) { int r = getopt_r(b, "abc", &o); VK_ENSURE("parsers do not interfere", r == (on < 3 ? "abc"[on] : -1)); on++; } }
  VK_ENSURE("the end is reached and kept", getopt_long_r(arr, OS, lng ? LO : NULL, &st) == -1 || !perm || st.optind <= na + 1);
  free(arr);
}
#endif
