import json
I='include/boost/astronomy/'
def P(id,title,st,over,qt,why,files,mech):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=w if w.startswith('test') else I+w) for n,w in mech]))
L=[
P('P01','A FITS card returns exactly what it was made from, in 80 characters',
 'Every header card made by the library from a keyword, a value of any supported type (logical, integer, floating point, complex, text) and a comment is exactly 80 characters in standard FITS layout, and gives back the same keyword and the same value both directly and after its text is parsed again. A card of a file written by other software, in fixed or free format, yields the keyword and value the FITS standard assigns to its text. What does not fit into a card, a value asked for as a type it does not have, and text that is no card are reported by an exception and leave the card as it was.',
 ['inputs'],'every keyword, value, comment and card text','tests build a handful of cards with short values; quotes, slashes, extreme numbers, over-long text and foreign layouts are not reached',
 ['io/card.hpp','io/default_card_policy.hpp','io/string_conversion_utility.hpp'],[('create_card / value<T>','io/card.hpp'),('serialize / parse','io/default_card_policy.hpp')]),
P('P02','A card answers with its latest value, whatever was asked or set before',
 'After any sequence of creations, value changes, copies and queries, a card answers every query from its current content: the last value set is the one read, asking for one type never changes the answer for another, queries never change the card, and copies do not affect one another. The card stays 80 characters long with its keyword throughout.',
 ['histories'],'every sequence of operations on a card and its copies','tests query a freshly made card once; caches and partial updates show only in longer histories',
 ['io/card.hpp'],[('value / set_value / raw_card','io/card.hpp')]),
P('P03','A header holds exactly the cards up to END, and its facts follow from them',
 'Reading a header yields every card before the END card, in order and unchanged; keyword lookup, presence test, comparison of headers, card count, pixel type, axes, name and computed data size all agree with those cards, whatever order or extra cards the file has. Writing it gives the same cards back, padded with blanks to a whole number of records. A missing END card, mandatory keyword or axis, an unusable pixel type and an absent keyword are reported by an exception, never answered with another value.',
 ['inputs','histories'],'every header, and every sequence of headers read with one object','tests read the headers of a few sample files',
 ['io/header.hpp','io/bitpix.hpp'],[('read_header / write_header','io/header.hpp'),('data_size','io/header.hpp')]),
P('P04','Reading a FITS file finds every unit, at its place, with its data',
 'For every well-formed file made of a primary unit and extensions, reading yields all units in file order, the primary unit, ASCII tables and binary tables with the header, name and data the file has and extensions of other kinds as empty places that do not disturb their neighbours, and access by index and by name reach the same unit. The block describing the units agrees with the units. Truncated files and unknown names or indices are reported by an exception; in the mode that reads headers only no data is taken in.',
 ['inputs','histories'],'every well-formed file, every truncation of it, and re-use of one reader for several files','tests read sample files with one or two extensions of fixed shapes',
 ['io/fits_reader.hpp','io/fits.hpp','io/extension_hdu.hpp','io/default_hdus.hpp','io/primary_hdu.hpp'],[('read_primary_hdu/read_extensions','io/fits_reader.hpp'),('HDU dispatch','io/default_hdus.hpp')]),
P('P05','Writing what was read gives a well-formed file with the same content',
 'Writing the primary unit and the tables read from a file produces a well-formed FITS file: every header and data part fills whole 2880 byte records with the fill the standard prescribes, and every header text and data byte is the one read (an ASCII table field keeps its text, right justified in its field). Reading that file and writing again gives the identical file, writing twice gives the same bytes, a previous file of that name is replaced, and the source file is untouched.',
 ['inputs','histories'],'every well-formed file and every sequence of reads and writes','tests write one table and look at a few values',
 ['io/primary_hdu.hpp','io/image_extension.hpp','io/ascii_table.hpp','io/binary_table.hpp','io/fits_stream.hpp'],[('write_to / set_unit_end','io/fits_stream.hpp'),('table data writers','io/binary_table.hpp')]),
P('P06','Every binary table cell reads as the value stored in the file',
 'For every binary table and every column format (logical, bits, bytes, 16 and 32 bit integers, characters, single and double precision reals and complex numbers, array descriptors, with any repeat count), each row and column gives the value its big-endian bytes encode, by row access and by iteration, in row order and for every row. Column number, name, format, width and the optional column keywords are those of the header. Unknown columns and data too short for the declared rows are reported by an exception.',
 ['inputs'],'every table layout, every cell content','tests read a few columns of one sample table',
 ['io/binary_table.hpp','io/table_extension.hpp','io/column.hpp','io/column_data.hpp'],[('set_data / parse columns','io/binary_table.hpp'),('column view','io/column_data.hpp')]),
P('P07','Binary and text encodings of values are inverse and bit exact',
 'For every supported element type, alone and in arrays, encoding gives the big-endian FITS bytes of the value and decoding those bytes gives the value back bit for bit, including infinities, NaN and negative zero. Numbers and text written as ASCII table fields read back as the same value, and text that is not a number or bytes too short for the request are reported by an exception.',
 ['inputs'],'every value of every supported type','tests convert a few chosen values',
 ['io/binary_data_converter.hpp','io/string_conversion_utility.hpp'],[('serialize / deserialize_to','io/binary_data_converter.hpp')]),
P('P08','Every ASCII table cell reads as the text and value stored in the file',
 'For every ASCII table, with any column order, start positions, gaps, widths and formats (text, integer, fixed and exponential reals), each row and column gives the text of its own character field and the value that text stands for, by row access and by iteration, for every row in order. Column metadata are those of the header; unknown columns and data too short for the declared rows are reported by an exception.',
 ['inputs'],'every table layout, every cell content','tests read a few columns of one sample table',
 ['io/ascii_table.hpp','io/column.hpp','io/column_data.hpp'],[('set_data / parse columns','io/ascii_table.hpp')]),
P('P09','An edited table holds exactly the edits, in memory and when written',
 'After any sequence of assignments to cells through the views of a table, the table and every view of it hold the assigned values in those cells and the original values everywhere else. Cells can be assigned from values and from other cells, any number of views of one column agree at all times, copies of a table do not share edits, iteration visits every row once with its current value, and the file written afterwards is well-formed and contains exactly the edited table. A value that does not fit its field is reported by an exception, at the latest when the table is written.',
 ['histories'],'every sequence of edits, reads, copies and writes','tests change one cell of one table',
 ['io/column_data.hpp','io/binary_table.hpp','io/ascii_table.hpp'],[('column view proxies','io/column_data.hpp'),('write back','io/binary_table.hpp')]),
P('P10','Images hold the pixels of the file and their statistics are right',
 'For every image of any pixel type (8, 16, 32 bit integers, single and double precision) and shape, reading yields exactly the pixel values of the file, in order, each reachable by its position along the axes. Minimum, maximum, mean, median and standard deviation are those of the pixels and do not change the image; an image without pixels is answered without touching memory it does not own. Asking for another pixel type is reported by an exception.',
 ['inputs'],'every pixel type, shape and content','tests read one image and compare a few statistics',
 ['io/image.hpp','io/image_extension.hpp','io/primary_hdu.hpp'],[('read_image_logic / statistics','io/image.hpp')]),
P('P11','No file content can make the library misbehave',
 'Whatever bytes a file contains, reading it, looking at everything it contains and writing it out either succeeds or ends with a standard exception. It never accesses memory out of bounds or uninitialized, never executes undefined behaviour, never runs without end and never needs memory out of proportion to the file.',
 ['inputs'],'every sequence of bytes used as a file','tests only read well-formed files',
 ['io/header.hpp','io/fits_reader.hpp','io/fits_stream.hpp','io/binary_table.hpp','io/ascii_table.hpp','io/image.hpp','io/card.hpp'],[('size checks before allocation','io/header.hpp'),('end of file checks','io/fits_stream.hpp')]),
P('P12','The FITS stream delivers and stores bytes at the right place',
 'For every sequence of opens, reads, writes, seeks, record alignments and closes, the stream returns exactly the bytes of the file at the current position, stores exactly the bytes given, reports position, end and openness correctly, and aligning moves to the next multiple of 2880 bytes only when not already there. Reading beyond the end is reported by an exception after which the stream is usable again.',
 ['histories','inputs'],'every sequence of stream operations on every file','tests open a file and read from its start',
 ['io/fits_stream.hpp'],[('read / write / set_unit_end','io/fits_stream.hpp')]),
P('P13','Failures of the file system are reported, never swallowed',
 'When a file cannot be opened, created or completely written (missing file or directory, a directory in its place, a full device at any byte), the operation ends with an exception; it never reports success for a file that is not complete, whatever single read or write fails. Afterwards the same objects can be used on a good file with correct results.',
 ['fault_sequences','crash_points'],'every failing call and every byte at which the device becomes full','tests never make the file system fail',
 ['io/fits_stream.hpp','io/fits_reader.hpp','exception/fits_exception.hpp'],[('stream state checks','io/fits_stream.hpp')]),
P('P14','Objects used by different threads do not affect one another',
 'Threads that work on their own objects (cards, headers, readers, tables, positions, motions, frames, dates), or that only read a common position, never race and each obtains the results it obtains when running alone.',
 ['schedules'],'every interleaving of threads working on separate objects or reading a shared position','no test uses a thread',
 ['io/card.hpp','io/fits_reader.hpp','io/column_data.hpp','coordinate/arithmetic.hpp','time/time_conversions.hpp'],[('absence of hidden shared state','io/card.hpp')]),
P('P15','The same input gives the same result, whatever the surroundings',
 'What the library reads from a file, card or text, writes, converts and computes depends on its input alone: the global C++ and C locale of the program, the time zone, the working directory, what was done before in the same process and what memory held before make no difference to any value, any byte written or any error reported.',
 ['configurations','histories'],'every locale with groups of three or more digits, time zone, working directory and earlier use of the library','tests run once, in a fresh process, with the classic locale',
 ['io/string_conversion_utility.hpp','io/default_card_policy.hpp','io/fits_reader.hpp','coordinate/utility/utility.hpp','time/time_conversions.hpp'],[('text conversion of numbers','io/string_conversion_utility.hpp'),('serialize_to_fits_format','io/default_card_policy.hpp')]),
P('P16','A program may use the library from any of its source files, in any build',
 'A program made of any number of source files that use the library, each including the headers in any order (and any one header alone), links, objects made in one source file can be used in another, and the results are the same in every build: unoptimised or optimised, with or without NDEBUG, compiled by gcc or clang, as C++14 or later, with plain char signed or unsigned. What is read and written is identical; computed coordinates and times agree up to rounding.',
 ['configurations','histories'],'every order of the headers, number of source files, compiler, language version, optimisation and assertion setting','every test is a program of one source file in one build',
 ['io/binary_data_converter.hpp','io/bitpix.hpp','io/string_conversion_utility.hpp','time/parser.hpp','time/time_conversions.hpp','coordinate/utility/utility.hpp'],[('functions and specialisations in headers','io/binary_data_converter.hpp'),('functions in headers','time/time_conversions.hpp')]),
P('P20','A position is the same point in every representation and unit',
 'Converting a position between Cartesian, spherical and spherical equatorial representations in any combination of units and any order gives the same point in space up to rounding, with angles in their canonical range, and converting back gives the original point. Components are kept as given (in their units), each setter changes its own component only, copies are equal, and equality holds for the same and fails for different points in the same units.',
 ['inputs','configurations'],'every position, including poles, axes, negative and wrapped angles, and every combination of kinds and units','tests convert single points with loose tolerances',
 ['coordinate/rep/cartesian_representation.hpp','coordinate/rep/spherical_representation.hpp','coordinate/rep/spherical_equatorial_representation.hpp','coordinate/rep/base_representation.hpp'],[('conversion constructors','coordinate/rep/spherical_representation.hpp')]),
P('P21','Vector arithmetic on positions is that of the vectors they stand for',
 'Dot product, cross product, magnitude, unit vector, sum and mean of positions equal those of the vectors in space they represent, with the right unit, for every mixture of representations and units of the operands; the result has the representation of the first operand.',
 ['inputs','configurations'],'every pair of positions, every combination of kinds and units','tests use a few vectors, mostly Cartesian in one unit',
 ['coordinate/arithmetic.hpp'],[('cross, dot, magnitude, unit_vector, sum, mean','coordinate/arithmetic.hpp')]),
P('P22','A motion is the same vector in every differential representation and unit',
 'Converting a differential between Cartesian, spherical, spherical equatorial and cos(lat)-scaled spherical forms in any combination of units gives the same vector up to rounding, and back. Sums, products with a quantity, magnitude and unit vector are those of the vectors, components and setters keep exactly what they were given.',
 ['inputs','configurations'],'every differential, every combination of kinds and units','tests convert single vectors with loose tolerances',
 ['coordinate/diff/cartesian_differential.hpp','coordinate/diff/spherical_differential.hpp','coordinate/diff/spherical_equatorial_differential.hpp','coordinate/diff/spherical_coslat_differential.hpp','coordinate/diff/base_differential.hpp'],[('conversion constructors, operator+, operator*','coordinate/diff/spherical_coslat_differential.hpp')]),
P('P23','Transformations between sky coordinate systems are the right rotations',
 'For every direction in the sky, observer latitude, sidereal time and obliquity, the conversions between hour angle, horizon, right ascension, ecliptic and galactic systems give the direction spherical trigonometry gives, the two directions of each conversion undo one another, and the extracted angles lie in their range, at the poles too. The obliquity for every date follows the adopted polynomial.',
 ['inputs'],'every direction, site, time and date','tests check one worked example per conversion',
 ['coordinate/utility/utility.hpp','coordinate/coord_sys/coord_sys.hpp'],[('conversion matrices, extract_coordinates, obliquity','coordinate/utility/utility.hpp')]),
P('P24','Coordinates, frames and sky points keep what they are given',
 'Every coordinate system object, reference frame and sky point gives back the position, motion and parameters (epoch, equinox, observation time, location, pressure, temperature, humidity, wavelength and the like) it was made with or that were last set, in the units of its type; setting one leaves the others unchanged, copies are complete, and what was not given starts at zero.',
 ['inputs','histories','configurations'],'every kind of object, unit combination and sequence of setters','tests construct each object once',
 ['coordinate/coord_sys/alt_az.hpp','coordinate/coord_sys/galactic.hpp','coordinate/coord_sys/supergalactic.hpp','coordinate/coord_sys/horizon_coord.hpp','coordinate/coord_sys/equatorial_ra_coord.hpp','coordinate/coord_sys/equatorial_ha_coord.hpp','coordinate/coord_sys/ecliptic_coord.hpp','coordinate/coord_sys/galactic_coord.hpp','coordinate/ref_frame/base_frame.hpp','coordinate/ref_frame/base_equatorial_frame.hpp','coordinate/ref_frame/base_ecliptic_frame.hpp','coordinate/ref_frame/icrs.hpp','coordinate/ref_frame/cirs.hpp','coordinate/sky_point.hpp'],[('getters and setters','coordinate/ref_frame/base_equatorial_frame.hpp')]),
P('P25','Angular separation and position angle are those of the sphere',
 'The angular separation of two points in the sky is the great circle distance: between 0 and half a turn, zero for equal points and never NaN, symmetric, independent of distance and units, and obeying the triangle inequality. The position angle is the bearing from one point to the other, in the half-open turn around zero.',
 ['inputs'],'every pair and triple of points, near, antipodal and polar ones included','tests compute one or two separations',
 ['coordinate/ref_frame/base_frame.hpp','coordinate/sky_point.hpp'],[('get_angular_separation','coordinate/ref_frame/base_frame.hpp'),('positional_angle','coordinate/sky_point.hpp')]),
P('P26','The Julian date is right for every day',
 'For every day from the year 1400 to 9999 and every time of day, the Julian date is that of the beginning of the day in the calendar then in use (Julian until 4 October 1582, Gregorian from 15 October 1582). Consecutive days differ by exactly one.',
 ['inputs'],'every day the date type can name','tests check a few dates',
 ['time/time_conversions.hpp'],[('julian_date','time/time_conversions.hpp')]),
P('P27','Sidereal time and decimal hours are right at every moment',
 'For every moment the Greenwich sidereal time agrees with the standard expression, lies in one day, advances at the sidereal rate within a day including fractions of a second, and local sidereal time differs from it by the longitude, east or west. A decimal hour and its hours, minutes and seconds always stand for the same time, however it was made.',
 ['inputs'],'every moment, longitude and time value','tests check a few moments',
 ['time/time_conversions.hpp','time/parser.hpp'],[('GST, LST','time/time_conversions.hpp'),('decimal_hour','time/parser.hpp')]),
P('P28','Length units convert with their defined factors',
 'Converting a length between metre, centimetre, astronomical unit, parsec and the light time units uses the factor their definitions give (to the precision of the library\'s constants) for every pair of units and every value, and back gives the original value.',
 ['inputs','configurations'],'every pair of units and every value','tests convert from some units to metres only',
 ['units/length.hpp'],[('scaled base units','units/length.hpp')]),
P('P29','Printed coordinates show their own components and units',
 'Printing a representation or a coordinate shows its kind, each component under its own label in the order of its components with its own unit and its full value at the precision of the stream, and leaves the stream as it was.',
 ['inputs'],'every printable kind, value and unit combination','tests print nothing or one value',
 ['coordinate/io/io.hpp','coordinate/coord_sys/horizon_coord.hpp','coordinate/coord_sys/equatorial_ra_coord.hpp','coordinate/coord_sys/equatorial_ha_coord.hpp','coordinate/coord_sys/ecliptic_coord.hpp','coordinate/coord_sys/galactic_coord.hpp'],[('operator<<','coordinate/io/io.hpp')]),
]
import os
for p in L:
    for f in p['anchors']['files']: assert os.path.exists('/repo/'+f),f
    assert len(p['title'])<=80,(p['id'],len(p['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in L))
