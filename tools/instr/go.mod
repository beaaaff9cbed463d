module instr

go 1.25.0
