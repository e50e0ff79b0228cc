// the headers of the library, order 1
#if __has_include(<boost/astronomy/coordinate/arithmetic.hpp>)
#include <boost/astronomy/coordinate/arithmetic.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/alt_az.hpp>)
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/coord_sys.hpp>)
#include <boost/astronomy/coordinate/coord_sys/coord_sys.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/coordinate.hpp>)
#include <boost/astronomy/coordinate/coord_sys/coordinate.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>)
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>)
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>)
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/galactic.hpp>)
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>)
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/geocentric.hpp>)
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/heliocentric.hpp>)
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>)
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/coord_sys/supergalactic.hpp>)
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/diff/base_differential.hpp>)
#include <boost/astronomy/coordinate/diff/base_differential.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/diff/cartesian_differential.hpp>)
#include <boost/astronomy/coordinate/diff/cartesian_differential.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/diff/differential.hpp>)
#include <boost/astronomy/coordinate/diff/differential.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp>)
#include <boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/diff/spherical_differential.hpp>)
#include <boost/astronomy/coordinate/diff/spherical_differential.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/diff/spherical_equatorial_differential.hpp>)
#include <boost/astronomy/coordinate/diff/spherical_equatorial_differential.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/io/io.hpp>)
#include <boost/astronomy/coordinate/io/io.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/ref_frame/base_ecliptic_frame.hpp>)
#include <boost/astronomy/coordinate/ref_frame/base_ecliptic_frame.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/ref_frame/base_equatorial_frame.hpp>)
#include <boost/astronomy/coordinate/ref_frame/base_equatorial_frame.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/ref_frame/base_frame.hpp>)
#include <boost/astronomy/coordinate/ref_frame/base_frame.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/ref_frame/cirs.hpp>)
#include <boost/astronomy/coordinate/ref_frame/cirs.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/ref_frame/frame.hpp>)
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/ref_frame/icrs.hpp>)
#include <boost/astronomy/coordinate/ref_frame/icrs.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/rep/base_representation.hpp>)
#include <boost/astronomy/coordinate/rep/base_representation.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/rep/cartesian_representation.hpp>)
#include <boost/astronomy/coordinate/rep/cartesian_representation.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/rep/representation.hpp>)
#include <boost/astronomy/coordinate/rep/representation.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp>)
#include <boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/rep/spherical_representation.hpp>)
#include <boost/astronomy/coordinate/rep/spherical_representation.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/sky_point.hpp>)
#include <boost/astronomy/coordinate/sky_point.hpp>
#endif
#if __has_include(<boost/astronomy/coordinate/utility/utility.hpp>)
#include <boost/astronomy/coordinate/utility/utility.hpp>
#endif
#if __has_include(<boost/astronomy/detail/is_base_template_of.hpp>)
#include <boost/astronomy/detail/is_base_template_of.hpp>
#endif
#if __has_include(<boost/astronomy/exception/fits_exception.hpp>)
#include <boost/astronomy/exception/fits_exception.hpp>
#endif
#if __has_include(<boost/astronomy/io/ascii_table.hpp>)
#include <boost/astronomy/io/ascii_table.hpp>
#endif
#if __has_include(<boost/astronomy/io/binary_data_converter.hpp>)
#include <boost/astronomy/io/binary_data_converter.hpp>
#endif
#if __has_include(<boost/astronomy/io/binary_table.hpp>)
#include <boost/astronomy/io/binary_table.hpp>
#endif
#if __has_include(<boost/astronomy/io/bitpix.hpp>)
#include <boost/astronomy/io/bitpix.hpp>
#endif
#if __has_include(<boost/astronomy/io/card.hpp>)
#include <boost/astronomy/io/card.hpp>
#endif
#if __has_include(<boost/astronomy/io/column.hpp>)
#include <boost/astronomy/io/column.hpp>
#endif
#if __has_include(<boost/astronomy/io/column_data.hpp>)
#include <boost/astronomy/io/column_data.hpp>
#endif
#if __has_include(<boost/astronomy/io/default_card_policy.hpp>)
#include <boost/astronomy/io/default_card_policy.hpp>
#endif
#if __has_include(<boost/astronomy/io/default_hdus.hpp>)
#include <boost/astronomy/io/default_hdus.hpp>
#endif
#if __has_include(<boost/astronomy/io/extension_hdu.hpp>)
#include <boost/astronomy/io/extension_hdu.hpp>
#endif
#if __has_include(<boost/astronomy/io/fits.hpp>)
#include <boost/astronomy/io/fits.hpp>
#endif
#if __has_include(<boost/astronomy/io/fits_reader.hpp>)
#include <boost/astronomy/io/fits_reader.hpp>
#endif
#if __has_include(<boost/astronomy/io/fits_stream.hpp>)
#include <boost/astronomy/io/fits_stream.hpp>
#endif
#if __has_include(<boost/astronomy/io/header.hpp>)
#include <boost/astronomy/io/header.hpp>
#endif
#if __has_include(<boost/astronomy/io/image.hpp>)
#include <boost/astronomy/io/image.hpp>
#endif
#if __has_include(<boost/astronomy/io/image_extension.hpp>)
#include <boost/astronomy/io/image_extension.hpp>
#endif
#if __has_include(<boost/astronomy/io/primary_hdu.hpp>)
#include <boost/astronomy/io/primary_hdu.hpp>
#endif
#if __has_include(<boost/astronomy/io/string_conversion_utility.hpp>)
#include <boost/astronomy/io/string_conversion_utility.hpp>
#endif
#if __has_include(<boost/astronomy/io/table_extension.hpp>)
#include <boost/astronomy/io/table_extension.hpp>
#endif
#if __has_include(<boost/astronomy/time/parser.hpp>)
#include <boost/astronomy/time/parser.hpp>
#endif
#if __has_include(<boost/astronomy/time/time_conversions.hpp>)
#include <boost/astronomy/time/time_conversions.hpp>
#endif
#if __has_include(<boost/astronomy/units/length.hpp>)
#include <boost/astronomy/units/length.hpp>
#endif
