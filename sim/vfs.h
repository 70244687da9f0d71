#pragma once
#include <string>
#include <sys/types.h>
int fd_alloc_file(int h, bool raw);
int fd_file_handle(int fd);
void fd_release_file(int fd);
std::string vfs_handle_path(int h);
ssize_t vfs_handle_read(int h, char *b, size_t n);
ssize_t vfs_handle_write(int h, const char *b, size_t n);
void vfs_handle_close(int h);
