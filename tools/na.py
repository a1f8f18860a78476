NA = {}
NOTES = 'Every check rebuilds the harness against /repo, compiles both to LLVM IR and discharges all obligations; see DESIGN.md.'
