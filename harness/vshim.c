/* placeholder */ int vshim_present;
