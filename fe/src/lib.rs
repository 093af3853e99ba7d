// replaced by lib/drv.py (fe_build) with the harnesses of the check being run
