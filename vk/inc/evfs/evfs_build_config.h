/* Stand-in for the cmake-generated header, used only when /repo has none. */
#define EVFS_VERSION  "1.0.0"
