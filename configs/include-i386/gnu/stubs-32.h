/* glibc's list of unimplemented functions, absent where only the 64-bit
   development files are installed; empty does no harm here */
