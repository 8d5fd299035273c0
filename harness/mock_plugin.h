#ifndef MOCK_PLUGIN_H
#define MOCK_PLUGIN_H
// A signing plugin under the control of the script: signatures become available at once, later, or never.
void mock_reset(void);
void mock_cmd(const char *what, int v);
#endif
