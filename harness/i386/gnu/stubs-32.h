/* the 64-bit system has no 32-bit headers; glibc has no stubs that matter here */
