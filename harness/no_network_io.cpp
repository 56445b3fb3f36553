// In place of network_io.cpp, which needs the sonata storage (not built here).
void export_network_io() {}
