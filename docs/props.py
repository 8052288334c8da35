# The property list: one P(...) per property.  mkman.py turns it into
# properties.jsonl and MANIFEST.json and fills in DESIGN.md's per-property part.
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                      files=files.split(), mech=mech, note=note, na=na))

P("C01", "Integers and characters convert to exact decimal text",
  "Converting any integer or character value to a string, to a caller's character buffer or to an internally allocated buffer yields exactly its decimal text (sign included, no padding) with a terminating null. A buffer that is too small, missing, or could not be allocated is reported through the documented error channel and nothing is written outside it.",
  "inputs fault_sequences", "every value of every supported integral type, every buffer size including too small, allocation failure",
  "Tests (not even built here) convert a handful of small values; boundary values, exact-fit buffers and failed allocations are never tried.",
  "ecl_converters/include/ecl/converters/char_strings.hpp ecl_converters/include/ecl/converters/string.hpp",
  [("digit counting and backward digit fill", "ecl_converters/include/ecl/converters/char_strings.hpp")])
P("C02", "Integers and byte arrays convert both ways without loss",
  "Encoding an integer into a byte container of exactly its size stores its bytes least significant first, and decoding them gives the same integer back. Shorter byte arrays decode as zero extended values; a container whose size does not fit is reported as a conversion error and nothing is stored or read outside it.",
  "inputs", "every integer value, every byte content and every container length up to 10 (vectors, ecl arrays, array windows)",
  "Tests encode one or two constants; sign extension, 64-bit widths and wrong sizes are not covered.",
  "ecl_converters/include/ecl/converters/to_byte_array.hpp ecl_converters/include/ecl/converters/from_byte_array.hpp ecl_containers/include/ecl/containers/array/converters.hpp ecl_containers/include/ecl/containers/stencil/converters.hpp",
  [("byte-wise shifting", "ecl_converters/include/ecl/converters/from_byte_array.hpp")])
P("C03", "Text is parsed into the number it spells, or flagged",
  "Parsing decimal text, a digit character or hexadecimal text gives the number the text spells; text that is not such a number is reported as a conversion error (an exception in debug builds) with the documented failure value. No text makes the parser read beyond its end.",
  "inputs", "every byte string up to the stated lengths",
  "Tests parse one or two well-formed strings.",
  "ecl_converters/include/ecl/converters/integers.hpp ecl_converters/include/ecl/converters/char.hpp ecl_converters/include/ecl/converters/to_byte_array.hpp",
  [("character classification and accumulation", "ecl_converters/include/ecl/converters/integers.hpp")])
P("C04", "Array and window element access is exact and range checked",
  "Element access through index, checked access, iterators, comma initialisation and windows (stencils) onto arrays, vectors, strings and raw buffers always refers to exactly the element it names. Checked access throws an out of range error for every index outside the container and for no valid one; debug builds also refuse every window, unchecked index or initialiser that leaves the container.",
  "inputs", "every index, every window position and length, every element value, for containers of up to 5 elements",
  "Tests touch a few valid indices and one or two invalid ones; off-by-one positions and windows at the edges are not covered.",
  "ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp ecl_containers/include/ecl/containers/array/array_mem_check.hpp ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp ecl_containers/include/ecl/containers/stencil/stencil.hpp ecl_containers/include/ecl/containers/stencil/specialisations.hpp ecl_containers/include/ecl/containers/initialiser.hpp",
  [("range checks in at() and debug assertions", "ecl_containers/include/ecl/containers/stencil/stencil.hpp")])
P("C05", "Arrays behave as independent values and never leak or corrupt storage",
  "Copying, assigning (also to itself), resizing, clearing and filling arrays through blueprints leaves each array with exactly the documented size and contents, independent of every other array. Every element is constructed and destroyed once, all storage is returned, and a failing allocation leaves the arrays valid.",
  "histories inputs fault_sequences", "every history of a few operations over two arrays, with arbitrary contents and any allocation failing",
  "Tests run one fixed sequence without allocation failures or self-assignment.",
  "ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp",
  [("copy constructor, operator=, resize, clear", "ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp")])
P("C06", "FiFo and PushAndPop are exact bounded queues",
  "After any history of pushes, pops, writes, fills, clears, copies and resizes, the fixed-length fifo holds exactly the most recent values oldest first, and the push-and-pop container holds exactly what a bounded queue that drops its oldest element when full would hold. Copies are equal and independent, and resizing starts from a clean queue of the new length.",
  "histories inputs", "every operation history of the stated length with arbitrary values, wrap-around included",
  "Tests run one fixed history that barely wraps.",
  "ecl_containers/include/ecl/containers/fifo.hpp ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp",
  [("ring indices modulo the storage size", "ecl_containers/include/ecl/containers/fifo.hpp")])
P("C07", "Flags behave as an exact bit set over their enumeration",
  "Combining, masking, inverting, comparing and testing ecl flags (with other flags, single enumerators and integer masks, by expression or by compound assignment) gives exactly the bits that set algebra gives. testFlag is true only when every bit of the enumerator is set, and the empty enumerator is contained only in the empty set.",
  "inputs histories", "every flag set, enumerator and mask of 32 bits, single operations and chains of compound assignments",
  "Tests use three fixed enumerators.",
  "ecl_utilities/include/ecl/utilities/flags.hpp",
  [("Flags operators", "ecl_utilities/include/ecl/utilities/flags.hpp")])
P("C08", "Function objects, references and parameters forward exactly",
  "Every function object (free, member, partially or fully bound, by value, by reference, wrapped nullary and unary objects and references to them) calls its target exactly once with exactly the arguments given or bound and hands back its result. Reference wrappers refer to the original object, parameters hold the last value set, and a singleton is one shared instance.",
  "inputs", "every argument value for every adapter and generator function",
  "Tests only print results for a few constants; the function object tests are not built.",
  "ecl_utilities/include/ecl/utilities/function_objects.hpp ecl_utilities/include/ecl/utilities/references.hpp ecl_utilities/include/ecl/utilities/parameter.hpp ecl_utilities/include/ecl/utilities/singleton.hpp",
  [("generateFunctionObject overloads", "ecl_utilities/include/ecl/utilities/function_objects.hpp")])
P("C09", "Sign, norm, limit and fuzzy comparison primitives are exact",
  "The sign, predicate and limit helpers give the mathematically right answer for every value of every arithmetic type. The fuzzy comparisons follow their documented relation (|x-y| not above precision times the smaller magnitude), are symmetric and consistent with exact ordering; norms agree with their Euclidean definition up to rounding; the cube root keeps the sign of its argument.",
  "inputs", "every integer, every float and double bit pattern (norms: magnitudes up to 1e6)",
  "Tests evaluate single constants; negative, boundary, NaN and huge values are never tried.",
  "ecl_math/include/ecl/math/simple.hpp ecl_math/include/ecl/math/norms.hpp ecl_math/include/ecl/math/fuzzy.hpp ecl_math/include/ecl/math/constants.hpp ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp ecl_type_traits/src/lib/numeric_limits.cpp",
  [("fuzzy comparison relations", "ecl_math/include/ecl/math/fuzzy.hpp"), ("limit tables", "ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp")])
P("C10", "Exceptions keep their flag, location, message and payload",
  "Standard and data exceptions report exactly the error flag, location, message and payload they were built with; copies and caught copies are equal; every re-throw constructor keeps the original flag, message and payload and prepends its location. Debug-only throw and assert macros are active in debug builds and inert otherwise, and ecl_throw always throws.",
  "inputs fault_sequences", "every flag value, short symbolic messages and locations, chains of re-throws",
  "Tests print one exception; chains, copies and payloads are never inspected.",
  "ecl_exceptions/include/ecl/exceptions/standard_exception.hpp ecl_exceptions/include/ecl/exceptions/data_exception.hpp ecl_exceptions/include/ecl/exceptions/macros.hpp ecl_exceptions/include/ecl/exceptions/exception.hpp ecl_exceptions/src/lib/standard_exception.cpp",
  [("re-throw constructors", "ecl_exceptions/src/lib/standard_exception.cpp")])
P("C11", "In-memory devices hold exactly the bytes written to them",
  "Appending to a fixed character buffer stores as many bytes as there is room for, in order, and reports that number; clearing empties it. The string device returns exactly the bytes written, in order and each once, whatever the history of writes, reads and clears and however often it has to grow; a failed allocation leaves it usable and nothing leaks.",
  "histories inputs fault_sequences", "every history of a few operations with symbolic contents and lengths at and around each buffer boundary, allocation failure",
  "Tests write one fixed string; growth, exact-fit and failure paths are never taken.",
  "ecl_devices/include/ecl/devices/detail/character_buffer.hpp ecl_devices/src/lib/detail/character_buffer.cpp ecl_devices/include/ecl/devices/string.hpp ecl_devices/src/lib/string.cpp",
  [("buffer growth", "ecl_devices/src/lib/string.cpp"), ("bounded append", "ecl_devices/src/lib/detail/character_buffer.cpp")])
P("C12", "Device errors are reported with the right meaning",
  "Every failed system call in the file, socket and serial layers is reported with the error meaning documented for its errno value (permission, busy, disconnected, out of resources, invalid argument and so on), the same one whether the build reports errors by exception or by return value.",
  "inputs fault_sequences", "every errno value for every kind of operation (open, read, write, close, socket calls, address lookup)",
  "Tests never make a device fail.",
  "ecl_devices/include/ecl/devices/detail/error_handler.hpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp",
  [("errno to flag tables", "ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp")])
P("C13", "Output files keep every byte and every descriptor",
  "After any history of opens, reopens, writes and flushes, an output file holds exactly what was there before (unless opened as new) followed by the bytes written, in order and once. Failures of any system call are reported with the right error and leave no open descriptor behind; closing and destruction close everything exactly once.",
  "histories fault_sequences inputs", "every history of a few operations on one object and two paths, in each write mode, any call failing",
  "Tests write one line to one file and do not look at it.",
  "ecl_devices/include/ecl/devices/ofile.hpp ecl_devices/src/lib/ofile_pos.cpp",
  [("open, write, flush, destructor", "ecl_devices/src/lib/ofile_pos.cpp")])
P("C14", "Shared files are one file with one lock and a true user count",
  "Objects that open the same shared file use one underlying file, which is opened by the first and closed by the last. Each write reaches the file exactly once and unbroken under a balanced lock; nothing buffered is lost when an object lets go of the file, and failures leave the registry, the counts and the locks consistent.",
  "histories fault_sequences inputs", "every history of a few operations over two objects and two paths with any call failing, writes around the buffer size",
  "Tests open one file once.",
  "ecl_devices/include/ecl/devices/shared_file.hpp ecl_devices/src/lib/shared_file.cpp",
  [("SharedFileManager registry and counts", "ecl_devices/src/lib/shared_file.cpp")])
P("C15", "Serial ports are configured, locked and timed as asked",
  "Opening a serial port applies exactly the requested baud rate, data bits, stop bits and parity, takes the lock, and on any failure closes and unlocks what it had acquired. Reads and writes pass on exactly the bytes moved; blocking, non-blocking and millisecond timeouts behave as configured, for every timeout value.",
  "inputs histories fault_sequences", "every configuration value, every timeout, every count moved, any system call failing",
  "There is no serial port in a test environment.",
  "ecl_devices/include/ecl/devices/serial_pos.hpp ecl_devices/src/lib/serial_pos.cpp ecl_devices/include/ecl/devices/serial_parameters.hpp",
  [("open, block, unblock, read with polling", "ecl_devices/src/lib/serial_pos.cpp")])
P("C16", "Sockets report connection state and transfers truthfully",
  "Socket clients and servers report exactly the number of bytes moved, peeked or waiting; hang-ups, disconnections and failures are reported with the documented status codes or errors, and the open state matches. Every descriptor acquired is closed exactly once whatever fails, and the address and port used are those asked for.",
  "histories inputs fault_sequences", "every history of a few operations on a client and on a server, every port, any call failing or moving a short count",
  "Tests need a live peer and are not run; failures are never produced.",
  "ecl_devices/include/ecl/devices/socket_client_pos.hpp ecl_devices/include/ecl/devices/socket_server_pos.hpp ecl_devices/src/lib/socket_client_pos.cpp ecl_devices/src/lib/socket_server_pos.cpp",
  [("open, close, read, write, peek, remaining", "ecl_devices/src/lib/socket_client_pos.cpp")])
P("C17", "Consoles deliver every character in order",
  "Characters written to the output and error consoles, of any value and in any block sizes, reach the right standard stream exactly once and in order, at the latest when flushed. The input console hands over every character typed, of any value, and reports the end of input as documented.",
  "histories inputs fault_sequences", "every history of a few writes and flushes around the buffer boundaries, every byte value, end of input",
  "Tests print constants and look at nothing.",
  "ecl_devices/include/ecl/devices/console.hpp ecl_devices/src/lib/console.cpp",
  [("buffered write and flush", "ecl_devices/src/lib/console.cpp")])
P("C18", "Timestamps and durations are exact signed arithmetic",
  "Timestamps and durations built from seconds and nanoseconds (or decimal seconds) hold exactly that value in normal form, for positive and negative values. Sums, differences and scaled durations are the exact mathematical result, comparisons agree with it, conversions to seconds, milli-, micro-, nanoseconds and text agree with it, and now() is what the clock said.",
  "inputs", "every sign and magnitude of seconds (within the bounds) and every nanosecond, for every operator",
  "Tests use a handful of positive values with no carries, borrows or sign changes.",
  "ecl_time/include/ecl/time/timestamp.hpp ecl_time/include/ecl/time/timestamp_base.hpp ecl_time/include/ecl/time/duration.hpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp",
  [("carry and borrow between fields", "ecl_time/src/lib/timestamp_base.cpp")])
P("C19", "Sleeps last as long as asked and snoozes keep their schedule",
  "Every sleep function and sleep object asks the system for exactly the duration given, and a snooze wakes at the end of each of its periods on an absolute schedule that does not drift, whatever the time spent in between; a snooze that is behind starts a fresh schedule or reports it as documented. Failed or interrupted sleeps are reported.",
  "inputs histories fault_sequences", "every duration, clock reading and period; every history of a few snoozes; any errno",
  "Tests sleep for fixed, short times and print.",
  "ecl_time/include/ecl/time/sleep.hpp ecl_time/include/ecl/time/snooze.hpp ecl_time/src/lib/sleep_pos.cpp ecl_time/src/lib/snooze_pos.cpp",
  [("absolute wake-up times", "ecl_time/src/lib/snooze_pos.cpp")])
P("C20", "Stopwatches, timing statistics and frequency monitors are true to the clock",
  "Stopwatches and cpu watches report exactly the time elapsed since they were (re)started and since the last split. Timing data report the mean, variance and standard deviation of what they were given. A frequency monitor reports the rate and the shortest and longest interval of the updates in each window, and whether there were any.",
  "histories inputs", "every history of a few operations with arbitrary clock readings in between",
  "Tests read the real clock and print.",
  "ecl_time/include/ecl/time/stopwatch.hpp ecl_time/src/lib/stopwatch.cpp ecl_time/include/ecl/time/cpuwatch_rt.hpp ecl_time/src/lib/cpuwatch_rt.cpp ecl_time/include/ecl/time/time_data.hpp ecl_time/src/lib/time_data.cpp ecl_time/include/ecl/time/frequency.hpp ecl_time/src/lib/frequency.cpp",
  [("elapsed and split", "ecl_time/src/lib/stopwatch.cpp"), ("window analysis", "ecl_time/src/lib/frequency.cpp")])
P("C21", "Threads run what they were given once and are released once",
  "Each successful start runs the given function, member or function object exactly once in a new thread, on the right object, with the requested priority and stack; a thread object starts at most one. Joining waits, cancelling requests it, isRunning tells whether the function is still running. Handles and tasks are released exactly once whatever the order of events; failed starts are reported and leave a usable object. Threadables behave the same.",
  "schedules histories fault_sequences", "every interleaving of a few operations with the thread's own progress, any creation failing",
  "Tests start threads and sleep; races between finishing, cancelling, joining and destruction are never provoked.",
  "ecl_threads/include/ecl/threads/thread_pos.hpp ecl_threads/src/lib/thread_pos.cpp ecl_threads/include/ecl/threads/threadable.hpp ecl_threads/include/ecl/threads/thread_exceptions_pos.hpp",
  [("task ownership between Thread and EntryPoint", "ecl_threads/include/ecl/threads/thread_pos.hpp"), ("cancel, join, destructor", "ecl_threads/src/lib/thread_pos.cpp")])
P("C22", "Mutexes exclude, wait as long as asked and report failures",
  "At most one thread holds a mutex at a time; trylock succeeds exactly when it was free; a timed trylock waits until the given duration from now has passed and no longer; a mutex created locked is locked. The number of locks reported counts holder and waiters and returns to zero. In debug builds deadlocks and other failures are reported and counted as not locked.",
  "schedules inputs fault_sequences", "every interleaving of two threads doing a few operations, every clock reading and duration, any call failing",
  "Tests lock and unlock in one thread.",
  "ecl_threads/include/ecl/threads/mutex_pos.hpp ecl_threads/src/lib/mutex_pos.cpp",
  [("lock, trylock, unlock", "ecl_threads/src/lib/mutex_pos.cpp")])
P("C23", "Thread and process priorities are set and read back truly",
  "Setting a priority gives the process exactly that level: reading it back returns it, higher levels are scheduled above lower ones within the range the system offers, real-time and ordinary levels replace each other, and the default changes nothing. Any failure is reported and nothing is reported as set that was not.",
  "inputs fault_sequences histories", "every priority after every priority, every real-time range, any system call failing",
  "Tests ignore the results, as they depend on privileges.",
  "ecl_threads/include/ecl/threads/priority_pos.hpp ecl_threads/src/lib/priority_pos.cpp",
  [("set_priority, get_priority", "ecl_threads/src/lib/priority_pos.cpp")])
P("C24", "Semaphores are one lock per name across their users",
  "Users of one name share one lock and users of different names do not. Only one of them holds it at a time; locking never returns without it, not even when interrupted by a signal; trylock succeeds exactly when it was free; a timed trylock waits until the given duration from now has passed. Unlocking more often than locking changes nothing. Failures are reported with the right error.",
  "schedules inputs fault_sequences", "every interleaving of two users doing a few operations, every clock reading and timeout, any call interrupted or failing",
  "Tests need several processes and print.",
  "ecl_ipc/include/ecl/ipc/semaphore_pos.hpp ecl_ipc/src/lib/semaphore_pos.cpp",
  [("lock, trylock, unlock", "ecl_ipc/src/lib/semaphore_pos.cpp")])
P("C25", "Shared memory of one name is one block with one creator",
  "All shared memory objects of one name refer to one block of the size of its type, which the first initialises and the others find as it is; what one writes the others read. The block's name is removed by its creator and by nobody else. Every descriptor and mapping is released exactly once, also when any step of the construction fails, which is reported with the right error.",
  "histories inputs fault_sequences", "every history of a few operations by several users of two names, any call failing, any contents",
  "Tests map one block in one process.",
  "ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp ecl_ipc/src/lib/shared_memory_pos.cpp",
  [("constructor and destructor", "ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp")])
P("C26", "Formatters print the value itself, padded and based as asked",
  "A formatter given a value prints exactly that value's text, in the width, base, precision and alignment asked for, never cut; text longer than the width is printed in full. Settings read back as set, stay until changed when stored and last for one use when given with the value. Copies are independent. A formatter that was given no value prints nothing (and throws in debug builds).",
  "inputs histories", "every value of every integral type, floats of every bit pattern and text length, every short history of settings and uses, any prior memory content",
  "Tests print a few numbers and compare nothing.",
  "ecl_formatters/include/ecl/formatters/number.hpp ecl_formatters/include/ecl/formatters/floats.hpp ecl_formatters/include/ecl/formatters/strings.hpp ecl_formatters/src/lib/strings.cpp ecl_formatters/include/ecl/formatters/common.hpp",
  [("Format<Number>", "ecl_formatters/include/ecl/formatters/number.hpp"), ("Format<double>", "ecl_formatters/include/ecl/formatters/floats.hpp"), ("Format<std::string>", "ecl_formatters/src/lib/strings.cpp")])
P("C27", "Output streams deliver exactly what is streamed or report failure",
  "What is inserted into a text stream reaches its device as its exact text, in order, completely and nothing else; flushing manipulators flush. A device that fails or takes less than it was given makes the stream fail with the error. String streams hold what was written until read. Log streams prefix stamps and headers as configured. Streams that cannot be opened report it and release everything.",
  "inputs histories fault_sequences", "every short sequence of insertions of any type and value, devices failing or taking less, any open failing",
  "Tests write a few words and look at the output by eye.",
  "ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp ecl_streams/include/ecl/streams/text_streams/base_text_stream.hpp ecl_streams/include/ecl/streams/log_stream.hpp ecl_streams/include/ecl/streams/file_streams.hpp ecl_streams/include/ecl/streams/socket_streams.hpp ecl_streams/include/ecl/streams/serial_stream.hpp ecl_streams/src/lib/manipulators.cpp",
  [("operator<<", "ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp"), ("log()", "ecl_streams/include/ecl/streams/log_stream.hpp")])
P("C28", "Input streams read the written value or fail and change nothing",
  "Reading a word, number, truth value or character from a text stream skips white space, consumes the text and what ends it but no more, and gives exactly the value written: decimal and hexadecimal integers up to the limits of their type, floats to their precision, the three spellings of true and false. Anything else leaves the variable untouched and makes the stream fail with the right error: read error, conversion error or out of range. What is written to a string stream is read back from it.",
  "inputs fault_sequences", "every short text and every text near the limits of each type, ending or failing anywhere",
  "Tests read a few well formed numbers.",
  "ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp ecl_streams/include/ecl/streams/string_stream.hpp",
  [("getIntegerFromStream", "ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp"), ("getFloatFromStream", "ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp")])
P("C29", "Polynomials evaluate, differentiate, shift, divide and intersect truly",
  "A polynomial's value and derivatives at every point are those of its coefficients; differentiation, horizontal shift and synthetic division by a factor give the polynomial they should (quotient times divisor plus remainder is the original). The blueprints interpolate the points and derivatives they are given. An intersection of two lines lies on both; parallel lines are reported, and a later success is a success.",
  "inputs histories", "all coefficients, values and derivatives in a range, rounding included",
  "Tests print a few polynomials or compare a handful of values.",
  "ecl_geometry/include/ecl/geometry/polynomial.hpp ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/include/ecl/geometry/pascals_triangle.hpp",
  [("differentiate, shift_horizontal, operator()", "ecl_geometry/include/ecl/geometry/polynomial.hpp"), ("blueprints", "ecl_geometry/src/lib/polynomial_blueprints.cpp"), ("division, intersection", "ecl_geometry/src/lib/polynomial.cpp")])
P("C30", "Polynomial roots and extrema are found, all of them and no others",
  "The roots reported for a linear, quadratic or cubic polynomial are exactly its real roots, whatever its coefficients: none is missing, none is not a root, none is not a number; polynomials of lower degree than their type included. The maximum and minimum over an interval are attained in it and no point of it lies beyond them.",
  "inputs", "all lines and quadratics with coefficients in a range, cubics with any grid of roots, every point of the interval",
  "Tests try a handful of well conditioned polynomials.",
  "ecl_geometry/src/lib/polynomial.cpp ecl_geometry/include/ecl/geometry/polynomial.hpp ecl_geometry/include/ecl/geometry/function_math.hpp",
  [("Roots", "ecl_geometry/src/lib/polynomial.cpp"), ("Maximum and Minimum", "ecl_geometry/src/lib/polynomial.cpp")])
P("C31", "Cubic splines pass through their points, smoothly",
  "Every cubic spline passes through each of the points given, is continuous with its first derivative (and the second where the construction promises it: natural and fixed-slope splines) at every knot, meets its boundary conditions and has the domain of its points; derivatives reported are those of the curve. Derivative-heuristic splines have at each inner knot the mean of the neighbouring slopes. Too few points or reads outside the domain are refused where checked.",
  "inputs", "any ordinates and boundary slopes in a range, several patterns of unequal spacing, every number of points up to a bound",
  "Tests print splines of one data set.",
  "ecl_geometry/include/ecl/geometry/cubic_spline.hpp ecl_geometry/src/lib/cubic_spline.cpp ecl_geometry/src/lib/cubic_spline_blueprints.cpp",
  [("blueprints", "ecl_geometry/src/lib/cubic_spline_blueprints.cpp"), ("operator(), derivative, dderivative", "ecl_geometry/src/lib/cubic_spline.cpp")])
P("C32", "Smooth linear splines follow their lines within the acceleration bound",
  "A smooth linear spline starts and ends at its first and last points, coincides with the straight lines between its points outside the rounded corners, is continuous in value and first derivative everywhere, and its second derivative never exceeds the acceleration bound in magnitude. When no corner fits with the bound, the construction is refused. Values and derivatives reported are those of one curve.",
  "inputs", "grids of ordinates, spacings and bounds of either sign, every abscissa",
  "Tests print one spline.",
  "ecl_geometry/include/ecl/geometry/smooth_linear_spline.hpp ecl_geometry/src/lib/smooth_linear_spline.cpp",
  [("constructor, operator()", "ecl_geometry/src/lib/smooth_linear_spline.cpp")])
P("C33", "Tension splines pass through their points with continuous slopes",
  "A tension spline passes through each of the points given, is continuous in value and in its first and second derivatives at every knot, has zero second derivative at its ends when natural, and has the domain of its points; reported derivatives are those of the curve. It stays within its storage whatever the number of points.",
  "inputs", "any ordinates in a range, several spacings and tensions, every number of points up to a bound",
  "Tests print one spline.",
  "ecl_geometry/include/ecl/geometry/tension_spline.hpp ecl_geometry/src/lib/tension_spline.cpp ecl_geometry/src/lib/tension_spline_blueprints.cpp ecl_geometry/include/ecl/geometry/tension_function.hpp ecl_geometry/src/lib/tension_function.cpp",
  [("natural blueprint", "ecl_geometry/src/lib/tension_spline_blueprints.cpp"), ("TensionFunction", "ecl_geometry/src/lib/tension_function.cpp")])
P("C34", "Angles are wrapped to one turn and stay the angle they should be",
  "Wrapping an angle gives the same angle up to full turns, in the interval from minus pi to pi, and leaves angles in it alone; wrapping in place does so to the variable. An Angle object made, assigned, added, subtracted, scaled or divided in any way holds the angle it should, always wrapped, and never changes its operands. Degrees and radians convert to each other exactly inversely. Rotation matrices and headings agree.",
  "inputs", "any angle of many turns, factor and operand in both float types",
  "Tests print a few angles.",
  "ecl_geometry/include/ecl/geometry/angle.hpp ecl_geometry/src/lib/angle.cpp",
  [("wrap_angle", "ecl_geometry/src/lib/angle.cpp"), ("Angle", "ecl_geometry/include/ecl/geometry/angle.hpp")])
P("C35", "Points add, scale, rotate and measure by their coordinates",
  "A point holds the coordinates it was given, however it was made or filled; too many or too few are refused where checked. Sums, differences, multiples, rotations, norms, distances and headings of points are those of their coordinates, operands and other coordinates unchanged. A linear segment's line passes through both its ends, and the distance of a point from it is that of the nearest point of the segment.",
  "inputs", "any coordinates, in each coordinate type and dimension",
  "Tests print points; the tested segments are a handful.",
  "ecl_geometry/include/ecl/geometry/cartesian_point.hpp ecl_geometry/include/ecl/geometry/homogeneous_point.hpp ecl_geometry/include/ecl/geometry/linear_segment.hpp ecl_geometry/src/lib/linear_segment.cpp",
  [("CartesianPoint", "ecl_geometry/include/ecl/geometry/cartesian_point.hpp"), ("LinearSegment", "ecl_geometry/src/lib/linear_segment.cpp")])
P("C36", "Poses compose, invert and transform points as rigid motions do",
  "A pose holds the heading or rotation and the translation it was given, read back in whichever form. The product of poses applied to a point is the one applied after the other; a pose times its inverse is no motion; the relative pose is what takes the one to the other; extending a pose, with itself too, is the product. All of it in either scalar type, with either rotation storage, operands unchanged, headings wrapped.",
  "inputs", "any translations and headings in a range, all pairs of scalar and storage types",
  "Tests print a few poses and compare nothing.",
  "ecl_geometry/include/ecl/geometry/pose2d.hpp ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp",
  [("Pose2D", "ecl_geometry/include/ecl/geometry/pose2d.hpp"), ("LegacyPose2D", "ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp"), ("LegacyPose3D", "ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp")])
P("C37", "Odometry trajectories hold their poses and twists in order",
  "A trajectory made from a list of poses, with or without twists, holds exactly those in order; appending one to another (or to itself) extends it; setting one changes that one only; resizing keeps those that fit. Each part read from a pose, twist or odometry is the part set, and setting one leaves the rest alone. Distances are those between positions, and from a trajectory that of its nearest segment; nothing is infinitely far from everything.",
  "inputs", "any float contents, trajectories of every length up to a bound, any point",
  "The helpers have no tests.",
  "ecl_geometry/src/lib/odometry_helper.cpp ecl_geometry/include/ecl/geometry/odometry_helper.hpp ecl_geometry/include/ecl/geometry/odometry_typedefs.hpp",
  [("helpers", "ecl_geometry/src/lib/odometry_helper.cpp")])
P("C38", "Cumulative statistics are those of all data since clearing",
  "After any history of pushes, clears and copies, the size, mean and variance reported are those of exactly the data pushed since the last clearing: zero for none, variance zero for one. Copies go their own ways and asking changes nothing.",
  "inputs histories", "any values in a range, every short history",
  "Tests push a handful of values once.",
  "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp",
  [("CumulativeStatistics", "ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp")])
P("C39", "Covariance ellipsoids have the lengths and axes of their matrix",
  "For every covariance matrix the squared lengths are its eigenvalues, the axes its eigenvectors, of length one and perpendicular (a right handed frame in three dimensions when sorted), the major axis first in two dimensions; nearly round and nearly flat ones included. Rotation and intercepts are those of the ellipse. Computing again replaces everything.",
  "inputs", "all 2x2 covariances in a range, grids around degenerate ones, a grid of 3x3 ones",
  "Tests look at one matrix.",
  "ecl_statistics/src/lib/covariance_ellipsoid.cpp ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp",
  [("compute, rotation, intercepts", "ecl_statistics/src/lib/covariance_ellipsoid.cpp")])
P("C40", "Differential drive kinematics turn wheels into motion and back",
  "Wheel turns move the robot by their mean and turn it by their difference over the axis, scaled by the radius, heading wrapped; the wheel rates computed for a velocity produce exactly that velocity. A base differential is passed on with the heading wrapped. Between two poses the translation is their distance, positive ahead and negative back, and the rotation the wrapped difference of headings.",
  "inputs", "any wheel turns, velocities and poses in a range, grids of geometries and headings",
  "There are no tests.",
  "ecl_mobile_robot/src/lib/differential_drive.cpp ecl_mobile_robot/include/ecl/mobile_robot/kinematics/differential_drive.hpp",
  [("kinematics", "ecl_mobile_robot/src/lib/differential_drive.cpp")])
P("C41", "Emissions call exactly the connected slots, through copies and relays",
  "For every history of connects, disconnects, copies, assignments, emissions and destructions of signals and slots: an emission calls each connected slot's function once per topic they share, with the data, directly or relayed through other slots, and nothing else. Copies share their original's connections; the last one gone disconnects and topics nobody uses vanish. Functions may emit, disconnect and throw; a slot destroyed by another thread waits for its running function. Nothing leaks.",
  "histories", "any connects, copies, emissions and destructions by up to two threads",
  "The tests only run with the ecl's gtest setup and sample a handful of connections, with no thread and no copy.",
  "ecl_sigslots/include/ecl/sigslots/sigslot.hpp ecl_sigslots/include/ecl/sigslots/signal.hpp ecl_sigslots/include/ecl/sigslots/slot.hpp ecl_sigslots/include/ecl/sigslots/manager.hpp ecl_sigslots/include/ecl/sigslots/topic.hpp",
  [("sigslots", "ecl_sigslots/include/ecl/sigslots/sigslot.hpp"), ("topics", "ecl_sigslots/include/ecl/sigslots/manager.hpp")])
P("C42", "Command lines are parsed into exactly the values given, or refused",
  "For every command line of the supported forms - short and long switches, combined switches, counted switches, values after a space or delimiter, values given many times, bare words, '--' - parsing gives each argument exactly what was said, in order, with isSet telling whether it was given; or the line is refused: unknown or repeated arguments, missing values or required ones, clashing exclusive ones, malformed numbers, disallowed values. Bad specifications are refused when made. Nothing leaks.",
  "inputs", "any few words of any characters for a dozen argument types",
  "The tests run one or two fixed command lines.",
  "ecl_command_line/include/ecl/command_line/cmd_line.hpp ecl_command_line/include/ecl/command_line/arg.hpp ecl_command_line/include/ecl/command_line/value_arg.hpp ecl_command_line/include/ecl/command_line/multi_arg.hpp ecl_command_line/include/ecl/command_line/switch_arg.hpp ecl_command_line/include/ecl/command_line/xor_handler.hpp ecl_command_line/include/ecl/command_line/unlabeled_value_arg.hpp",
  [("cmdline", "ecl_command_line/include/ecl/command_line/cmd_line.hpp"), ("values", "ecl_command_line/include/ecl/command_line/value_arg.hpp")])
P("C43", "Manipulator trajectories meet their ends within their limits, or are refused",
  "Waypoints keep the angles, rates, accelerations, nominal rates, durations and names they are given, know which were configured, copy independently and compare by all of their angles; trajectories take only waypoints of their dimension and keep them in order through clearing and redimensioning. Interpolating, both ways and again, ends: with a trajectory that starts and ends at its first and last waypoints, at their rates and without acceleration, without jumps in position or rate, linear ones never faster accelerating than allowed; or with a refusal, when there are too few waypoints, rates that are not positive or segments that take no time. Nothing is leaked.",
  "inputs histories", "any waypoints of up to three joints, short histories of trajectories, grids of courses, and linear ones at any time",
  "There are no tests.",
  "ecl_manipulators/include/ecl/manipulators/waypoint.hpp ecl_manipulators/include/ecl/manipulators/trajectory.hpp ecl_manipulators/src/lib/trajectory.cpp ecl_manipulators/src/lib/waypoint.cpp",
  [("interpolations", "ecl_manipulators/src/lib/trajectory.cpp"), ("waypoints", "ecl_manipulators/include/ecl/manipulators/waypoint.hpp")])
