"""Static analysis of /repo/cddm (never imports or executes the analysed code)."""
