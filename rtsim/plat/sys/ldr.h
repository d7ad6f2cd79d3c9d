/* stand-in for the parts of AIX's sys/ldr.h the generated code uses */
#ifndef RT_SYS_LDR_H
#define RT_SYS_LDR_H
#ifdef __cplusplus
extern "C" {
#endif
struct ld_info {
    unsigned int ldinfo_next;
    unsigned int ldinfo_flags;
    union { int _ldinfo_fd; void *_ldinfo_fp; } _file;
    void *ldinfo_textorg;
    unsigned long long ldinfo_textsize;
    void *ldinfo_dataorg;
    unsigned long long ldinfo_datasize;
    char ldinfo_filename[2];
};
#define L_GETINFO 2
int loadquery(int, void *, unsigned int);
#ifdef __cplusplus
}
#endif
#endif
