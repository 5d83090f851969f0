// Compiles each line of a file as an anonymous class on one compiler and prints the error id and the first message.
#define main mcrun_main
#include "mcrun.c"
#undef main
int main(int argc, char** argv) {
  SPVM_ENV* boot = SPVM_NATIVE_new_env(); void* comp = boot->api->compiler->new_instance();
  for (int i = 2; i < argc; i++) boot->api->compiler->add_include_dir(comp, argv[i]);
  boot->api->compiler->set_start_file(comp, "anon"); boot->api->compiler->set_start_line(comp, 1);
  FILE* f = fopen(argv[1], "r"); char* line = NULL; size_t cap = 0; ssize_t n; int id = 0;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0;
    for (char* p = line; *p; p++) if (*p == '\001') *p = '\n';
    const char* name = NULL;
    alarm(10);
    printf("B %d\n", id); fflush(stdout);
    int e = boot->api->compiler->compile_anon_class(comp, line, &name);
    TL = 0; tput("", 0);
    if (boot->api->compiler->get_error_messages_length(comp)) { const char* m = boot->api->compiler->get_error_message(comp, 0); tesc(m, strlen(m)); }
    printf("R %d %d %s\n", id++, e, TL ? T : "-");
  }
  boot->api->compiler->free_instance(comp); boot->free_env(boot);
  printf("END\n");
  return 0;
}
