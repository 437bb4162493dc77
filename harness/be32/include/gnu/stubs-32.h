/* the 32-bit C library is not installed; its headers want this file */
