/* Native entry point: VP_CASES(X) lists the entry functions. */
#ifdef VP_NATIVE
#undef main
int __nd_n, __nd_i; uint64_t *__nd_v;
int main (int argc, char **argv)
{
  int i;
  if (argc < 2) return 99;
  __nd_n = argc - 2;
  __nd_v = calloc (__nd_n + 1, 8);
  for (i = 0; i < __nd_n; i++) __nd_v[i] = strtoull (argv[i + 2], NULL, 10);
#define X(f) if (!strcmp (argv[1], #f)) { f (); return 0; }
  VP_CASES(X)
  return 98;
}
#endif
