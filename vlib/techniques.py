COMMON = " Trusts numpy, scipy and netCDF4 as the oracle's arithmetic and file access, and holds for the executions observed only."
TECH = {
 "C01": ("runtime monitor: opened data against an independent model of the generated files", "Every block, boundary and index entry of every opened data set is compared with what the generated files hold." + COMMON),
 "C02": ("runtime monitor: uncertainties and matrices against the generated files", "Every block's uncertainty record and matrices are compared entry by entry with what the generated files hold." + COMMON),
 "C03": ("runtime monitor: accessor results against the generated files", "Every accessor is called for every series and sensor and compared with the files." + COMMON),
 "C04": ("runtime monitor: round-trip oracle over written files", "Files are read back with netCDF4 and with the package and compared with the arrays given." + COMMON),
 "C05": ("runtime monitor: algebraic oracle on transformed data", "Forward and reverse transformations are compared with the defining equations, inputs are compared before and after." + COMMON),
 "C06": ("runtime monitor: conservation, independence and alignment oracle on sampled data", "Each sampled match-up is traced back to its row; independence is decided from the weighting matrices." + COMMON),
 "C07": ("runtime monitor: range oracle on simulated data", "Each simulated block is compared with the even spacing over its range." + COMMON),
 "C08": ("runtime monitor: measurand oracle and finite differences", "Measurands, uncertainties and derivatives are recomputed from the sensor models match-up by match-up." + COMMON),
 "C09": ("runtime monitor: measurement equations and finite differences", "Every sensor of every registered data set is evaluated and its derivatives compared with central differences." + COMMON),
 "C10": ("runtime monitor: independent residual model, finite differences, adjoint identity", "Residuals, Jacobian rows and columns, adjoint, normal operator and back-transformations of the real solver object are compared with an independent double-precision model." + COMMON),
 "C12": ("runtime monitor: dense linear algebra oracle, optimality conditions, object reuse", "Everything the solvers report about a solution is recomputed from it; reused objects must answer as fresh ones." + COMMON),
 "C11": ("runtime monitor: independent double-precision Gauss-Newton with exact linear solves", "Runs of the real solver and of the complete harmonisation are compared with the minimum, covariance and residuals an independent solution finds for the same data." + COMMON),
 "C13": ("runtime monitor: save/restore differential on the real solver", "States of real solver objects are saved and opened by other routes, and everything both compute is compared." + COMMON),
 "C14": ("runtime monitor: independent double-precision fixed point", "The preconditioner's fit of the real code is compared with the weighted least-squares fixed point and its covariance." + COMMON),
 "C15": ("runtime monitor: save/open histories with independent file reading", "Results are saved over and beside others, their files read directly, opened in every way and saved again, and compared with what went in." + COMMON),
 "C16": ("runtime monitor: per-value accounting and additive probes", "Every entry is recomputed from the values counted into their own period or bin; a single 1 among zeros shows where and how often a value counts." + COMMON),
 "C17": ("runtime monitor: windows recomputed per scanline, probe averages", "Each generated matrix is compared with windows recomputed one scanline at a time, and probe scanline data is averaged through it." + COMMON),
 "C18": ("runtime monitor: fault injection into files, verdict oracle", "Sound files and files with one or several injected format faults are given to the checker; a monitor compares verdict, report and exit status with the faults injected." + COMMON),
 "C19": ("runtime monitor: converted files against kept rows and recomputed windows", "The real converter runs on generated producer files; every file it writes is read back and compared with the kept rows of the input and with windows recomputed per scanline." + COMMON),
 "C20": ("runtime monitor: converted copies against inputs and recomputed windows", "The real tool converts generated microwave files and directories; copies are compared with their inputs and with calibration windows recomputed per scanline from each sensor's times." + COMMON),
 "C21": ("runtime monitor: round trips, monotonicity, extended-precision Planck reference", "Conversions of scalars and arrays by the real code are compared with the Planck function in extended precision, with scalar conversions and with their own inverse." + COMMON),
 "C27": ("runtime monitor: recorded run calls against the options given", "Option vectors and job files go through the real parser and program, whose heavy calls are recording stand-ins; the recorded calls are compared with the options." + COMMON),
 "C28": ("runtime monitor: result files of whole program runs against an independent optimum", "The real program runs from match-up files to result files; the files are read directly and compared with a double-precision Gauss-Newton solution of the same data, directories with their contents before the run." + COMMON),
 "C29": ("runtime monitor: converted files against the generated text", "The real converter runs on generated PMH data sets; every file is read back with netCDF4 and the package's reader and compared with the numbers of the text and independently stated rolling averages." + COMMON),
 "C30": ("runtime monitor: recorded curves against the generated data", "Plots are made by the real programs and classes with a stand-in plotting library that records every curve; each is compared with residuals, means and bins computed in double precision from the generated data, and the values behind them are asked for in random orders." + COMMON),
 "C31": ("runtime monitor: configuration dumps and messages of the sanitized native program against a model of the namelists", "The sanitized program reads random namelist files; every value it then holds is compared with a model of what the files say, every message with the log level and the clock, and runs of one workload at all log levels with each other." + COMMON),
 "C23": ("runtime monitor: operation histories against a reference store, sanitized native build", "Random operation sequences run on the sanitized native modules; every dump of the store is compared with a reference model, malformed arrays must end in a reported error." + COMMON),
 "C24": ("runtime monitor: registry histories against a reference model, sanitized native build", "Random histories of registrations, settings and look-ups run on the sanitized native modules; every dump is compared with a reference model, invalid indices must end in a reported error." + COMMON),
 "C22": ("runtime monitor: registry and matrix dumps of the sanitized native reader against a reference model", "The sanitized reader runs on generated match-up files, selections and sampling steps; everything it registered is compared with the files, and files with one unacceptable value must be refused with an error." + COMMON),
 "C25": ("runtime monitor: files, names and time stamps of the sanitized native writer read back and compared", "The sanitized writer runs on generated results and configurations; every file is read back and compared with what was given, names of neighbouring configurations must differ, time stamps must agree with the calendar." + COMMON),
 "C26": ("sanitizers, valgrind and fault injection over the native and compiled code", "The demo, the reader driver and the Cython extensions are built from the working tree with ASan, UBSan and bounds checks and run on sound inputs, on single faults in match-up files and configurations, and with the n-th open, read or write failing (a preloaded stand-in); an unsanitized build runs in valgrind, and results are compared under three fill patterns of fresh memory. Violations are sanitizer reports, signals, and faults that are not refused with an error and a non-zero exit status." + COMMON),
}
NA = {}
