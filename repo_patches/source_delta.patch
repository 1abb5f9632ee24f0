From f4c2aae5bdb6448b765f4da03dbe18cf514dd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 01/27] fix: modulation bases must span the tangent plane of
 the obstacle surface

In three dimensions the tangent was not normalised, so the orthogonal basis was not
orthonormal, and the third vector of the reference basis was not tangent to the level
surface: the velocity got a normal component on the surface of the obstacle.
---
 src/Modulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..33f8801 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -69,6 +69,7 @@ namespace DynamicObstacleAvoidance
 				unit_vector = Eigen::Vector3d::UnitY();
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
+			tangent_vector.normalize();
 
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
@@ -82,9 +83,9 @@ namespace DynamicObstacleAvoidance
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
+			// the two last directions have to span the tangent hyperplane of the level surface
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
-- 
2.43.0


From 376cbc9be2e68afb6c1e5deb31cd0a28ac2a55d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 02/27] fix: the frame of the dynamical system must be
 orthonormal

Vertical velocities left two zero columns in it (the fallback axis was overwritten) and
inclined ones two columns that were too short, which distorted the modulated velocity.
---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 33f8801..98ea30a 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -113,9 +113,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From 636b3413f6176bce1d5739db65f86b1102b520a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 03/27] fix: normal of an ellipsoid with curvature factors

The lengths were raised to the wrong power, so for curvature factors other than one the
returned vector was not perpendicular to the level surface.
---
 src/Obstacle/Ellipsoid.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..7a5aedf 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,17 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
+		Eigen::Array3d factors = 2 * this->curvature_factor;
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			if(lengths(i) > this->epsilon)
+			{
+				point_in_frame(i) /= lengths(i);
+				factors(i) /= lengths(i);
+			}
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		// gradient of the level function used by compute_distance_to_point
+		Eigen::Vector3d normal_vector = factors * point_in_frame.pow(2 * this->curvature_factor - 1);
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From aab771fa55d4e9dcfe730e6938c9463da0d9a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 04/27] fix: crossings of an obstacle with a line along its
 second axis

The slope of such a line is infinite (or huge), so the crossings were missed or inaccurate:
hulls had dents there and reference points were not shifted.
---
 src/Obstacle/Ellipsoid.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 7a5aedf..22b4ac3 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -265,27 +265,26 @@ namespace DynamicObstacleAvoidance
 		// transform both reference points in the object frame
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
-		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		// parametrize the line passing by the two points, vertical lines included
+		Eigen::Vector3d direction = rx2 - rx1;
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (direction(0)*direction(0)) / r1squared + (direction(1)*direction(1)) / r2squared;
+		double B = 2 * ((rx1(0)*direction(0)) / r1squared + (rx1(1)*direction(1)) / r2squared);
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * direction(0), rx1(1) + t1 * direction(1), 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * direction(0), rx1(1) + t2 * direction(1), 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 4208f46d78827931f04a664b5ece5cbde8d0ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 05/27] fix: a copied or assigned agent needs an envelope of
 its own

The copy had none at all, so transformed() and every setter of a copy dereferenced a null
pointer, and an assigned agent shared the envelope of the other one.
---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..0c0f1e4 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Assignment operator
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..bd7ad7d 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -16,7 +16,20 @@ namespace DynamicObstacleAvoidance
 
 	Agent::Agent(const Agent& agent):
 	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
-	{}
+	{
+		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
+	}
+
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		this->delta_t = agent.delta_t;
+		// the envelope is not shared between agents, only updated
+		this->update_envelope();
+		return (*this);
+	}
 
 	void Agent::update_envelope()
 	{
-- 
2.43.0


From 6ba9f8d0cd338ed4896e2cf05c3c7c1b9d49cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 06/27] fix: the envelope of an agent must follow its state and
 safety margin from the start

After construction it was a unit sphere around the agent and a new safety margin did not
reach it, so local avoidance looked at the wrong zone.
---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 0c0f1e4..378c30f 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -131,6 +131,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index bd7ad7d..449839f 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From f7b455bd17672ddf342a107248d751e9f34f7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 07/27] fix: neighbours of an angle beyond the last sample wrap
 around

find_closest_points returned an index one past the end, so asking an aggregate about an
agent exactly to the left of its centre (angle pi) read outside the hull.
---
 src/Utils/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..79ed33a 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,8 +87,8 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
-        unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
+        unsigned int first_index = (it - vec.begin()) % vec.size();
+        unsigned int next_index = (first_index + 1) % vec.size();
         return std::make_pair(first_index, next_index);
     }
 }
-- 
2.43.0


From 92409d9982e5090f83602015d7a501a0fe4c1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 08/27] fix: infinite modulated velocities must be caught like
 NaN ones

---
 src/Modulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 98ea30a..2d3b325 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -222,9 +222,9 @@ namespace DynamicObstacleAvoidance
 				}
 			}
 
-			if(modulated_velocity.hasNaN())
+			if(!modulated_velocity.allFinite())
 			{
-				std:: cerr << "Modulated velocity contains NaN numbers, returning 0 velocity" << std::endl;
+				std:: cerr << "Modulated velocity contains NaN or infinite numbers, returning 0 velocity" << std::endl;
 				modulated_velocity = Eigen::Vector3d(0,0,0);
 			}
 			return modulated_velocity;
-- 
2.43.0


From 02b63ffdda1bbfdd0b81b33ff4719cc77da22c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 09/27] fix: containment must follow the curvature factors like
 the level value

---
 src/Obstacle/Ellipsoid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 22b4ac3..ef4dea1 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -195,7 +195,8 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		Eigen::Vector3d transformed_point = this->get_pose().inverse() * point;
-		double eq_value = ((transformed_point(0) * transformed_point(0)) / (lengths(0) * lengths(0))) + ((transformed_point(1) * transformed_point(1)) / (lengths(1) * lengths(1)));
+		// same level function as compute_distance_to_point
+		double eq_value = std::pow(transformed_point(0) / lengths(0), 2 * this->curvature_factor(0)) + std::pow(transformed_point(1) / lengths(1), 2 * this->curvature_factor(1));
 		return (eq_value <= 1);
 	}
 
-- 
2.43.0


From 93a264e5d8e8c979a09db67626b814b0a56306e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 10/27] fix: curvature factors that are not integers

---
 src/Obstacle/Ellipsoid.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index ef4dea1..e0523f5 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -75,7 +75,7 @@ namespace DynamicObstacleAvoidance
 			}
 		}
 		// gradient of the level function used by compute_distance_to_point
-		Eigen::Vector3d normal_vector = factors * point_in_frame.pow(2 * this->curvature_factor - 1);
+		Eigen::Vector3d normal_vector = factors * point_in_frame.sign() * point_in_frame.abs().pow(2 * this->curvature_factor - 1);
 		normal_vector.normalize();
 		return normal_vector;
 	}
@@ -89,7 +89,8 @@ namespace DynamicObstacleAvoidance
 		{
 			tmp_values(i) = (lengths(i) > this->epsilon) ? point_in_frame(i) / lengths(i) : point_in_frame(i);
 		}
-		tmp_values = tmp_values.pow(2 * this->curvature_factor);
+		// the absolute value lets curvature factors take any value, not only integers
+		tmp_values = tmp_values.abs().pow(2 * this->curvature_factor);
 		return tmp_values.sum();
 	}
 
@@ -196,7 +197,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		Eigen::Vector3d transformed_point = this->get_pose().inverse() * point;
 		// same level function as compute_distance_to_point
-		double eq_value = std::pow(transformed_point(0) / lengths(0), 2 * this->curvature_factor(0)) + std::pow(transformed_point(1) / lengths(1), 2 * this->curvature_factor(1));
+		double eq_value = std::pow(std::abs(transformed_point(0) / lengths(0)), 2 * this->curvature_factor(0)) + std::pow(std::abs(transformed_point(1) / lengths(1)), 2 * this->curvature_factor(1));
 		return (eq_value <= 1);
 	}
 
-- 
2.43.0


From 5d61f6c0f40a582df1b680f38af312c6634c62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 11/27] fix: sampled outlines must follow the curvature factors
 and the height of the obstacle

---
 src/Obstacle/Ellipsoid.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index e0523f5..ead7f4d 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -244,9 +244,12 @@ namespace DynamicObstacleAvoidance
 		for(unsigned int i=0; i<nb_samples; ++i)
 		{
 			double a = alpha.at(i);
-			samples(0, i) = lengths(0) * cos(a) * cos(theta) - lengths(1) * sin(a) * sin(theta) + this->get_position()(0);
-			samples(1, i) = lengths(0) * cos(a) * sin(theta) + lengths(1) * sin(a) * cos(theta) + this->get_position()(1);
-			samples(2, i) = 0;
+			// outline of the level function used by point_is_inside
+			double x = lengths(0) * copysign(pow(std::abs(cos(a)), 1. / this->curvature_factor(0)), cos(a));
+			double y = lengths(1) * copysign(pow(std::abs(sin(a)), 1. / this->curvature_factor(1)), sin(a));
+			samples(0, i) = x * cos(theta) - y * sin(theta) + this->get_position()(0);
+			samples(1, i) = x * sin(theta) + y * cos(theta) + this->get_position()(1);
+			samples(2, i) = this->get_position()(2);
 		}
 		return samples;
 	}
-- 
2.43.0


From 61b62c0900926a2f81b481f26a77416229604f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 12/27] fix: surface area of an ellipsoid

---
 src/Obstacle/Ellipsoid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index ead7f4d..fb96aa8 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -257,7 +257,8 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		// Thomsen's approximation of the surface
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0


From c71c41e5f4dfa70c6cdba24c33bd40433df19db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 13/27] fix: intersection of an aggregate with an ellipsoid

---
 include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp | 8 ++++++++
 src/Obstacle/Aggregate.cpp                              | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
index f82a4a7..1de76e0 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
@@ -30,6 +30,14 @@ namespace DynamicObstacleAvoidance
 		 */
 		void update_center_position();
 
+	protected:
+		/**
+		 * @brief Function to check if one of the primitives is intersecting with an Ellipsoid
+		 * @param other_obstacle the Ellipsoid
+		 * @return true if the obstacles are intersecting
+		 */
+		bool is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const override;
+
 	public:
 		/**
 		 * @brief Empty constructor
diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..a9b4538 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -107,6 +107,13 @@ namespace DynamicObstacleAvoidance
 		return inside;
 	}
 
+	bool Aggregate::is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const
+	{
+		bool intersecting = false;
+		for(auto& p:this->primitives) intersecting = (intersecting || p->is_intersecting(other_obstacle));
+		return intersecting;
+	}
+
 	Eigen::Vector3d Aggregate::compute_repulsion_vector(const Agent& agent) const
 	{
 		Eigen::Vector3d repulsion = this->get_repulsion_factor(agent, 20) * (agent.get_position() - this->get_reference_position());
-- 
2.43.0


From 12a899f41a80d9b57a2245814b37ba423d359f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 14/27] fix: smoothing of the hull used samples that were not
 computed yet

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From 9861c6a94ede2bf44e2581b17f1deb68930004ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 15/27] fix: samples of the hull must be evenly spaced across
 the seam

---
 src/Obstacle/StarShapeHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f4c1d6d 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -42,8 +42,8 @@ namespace DynamicObstacleAvoidance
 		this->set_reference_position(reference_point);
 		this->set_position(reference_point);
 
-		// this -1e-4 trick is to avoid that idx 0 and end represent both the same point
-		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI-1e-4, this->resolution);
+		// stop one step before pi, idx 0 and end are neighbours but do not represent the same point
+		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI - 2*M_PI/this->resolution, this->resolution);
 		
 		for(unsigned int i = 0; i < this->resolution; ++i)
 		{
-- 
2.43.0


From 0f3468596548ef8aa4cf1af2fff9f8b8a4ed30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 16/27] fix: the normal of a hull must have unit length

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f4c1d6d..2c2a9d6 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 8a7815527701a5cda21607f40ca4efb14b20bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 17/27] fix: the distance to a hull must include the safety
 margin

---
 src/Obstacle/StarShapeHull.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2c2a9d6..40f0cdb 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -118,7 +118,7 @@ namespace DynamicObstacleAvoidance
 		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
-	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
+	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d& safety_margin) const
 	{
 		Eigen::Vector3d polar_point = MathTools::cartesian_to_polar(this->get_pose().inverse() * point);
 		unsigned int idx = MathTools::find_closest_points(this->polar_surface_points, polar_point, 2).first;
@@ -126,9 +126,9 @@ namespace DynamicObstacleAvoidance
 
 		double distance;
 		if(this->is_inside)
-			distance = surface_point(0) / polar_point(0);
+			distance = surface_point(0) / (polar_point(0) + safety_margin(0));
 		else
-			distance = polar_point(0) / surface_point(0);
+			distance = polar_point(0) / (surface_point(0) + safety_margin(0));
 		return distance;
 	}
 
-- 
2.43.0


From 4569f1e3d6fd49642e12fdeba29172d2bbee84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:03 +0000
Subject: [PATCH 18/27] fix: the normal of a hull must include the safety
 margin

---
 src/Obstacle/StarShapeHull.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 40f0cdb..0647e32 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -112,8 +112,16 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Vector3d polar_point = MathTools::cartesian_to_polar(this->get_pose().inverse() * agent.get_position());
 		auto idx = MathTools::find_closest_points(this->polar_surface_points, polar_point, 2);
-		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
-		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
+		// two points of the level surface the agent is on, i.e. including its safety margin
+		Eigen::Vector3d surface_point1 = this->polar_surface_points.col(idx.first);
+		Eigen::Vector3d surface_point2 = this->polar_surface_points.col(idx.second);
+		double margin = agent.get_safety_margin();
+		double scale = (this->is_inside) ? (polar_point(0) + margin) / surface_point1(0) : 1.0;
+		double offset = (this->is_inside) ? -margin : margin;
+		surface_point1(0) = scale * surface_point1(0) + offset;
+		surface_point2(0) = scale * surface_point2(0) + offset;
+		surface_point1 = MathTools::polar_to_cartesian(surface_point1);
+		surface_point2 = MathTools::polar_to_cartesian(surface_point2);
 
 		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
-- 
2.43.0


From d798493b1e665f3972c9a364baacc1e0c973fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 19/27] fix: obstacles built from a name need a reference
 position

---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..637d19d 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(state.get_position()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(state.get_position()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From 9dc1321cf95d3c3f38d945f824735ccd8d3b31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 20/27] fix: poses always have a unit orientation

---
 include/DynamicObstacleAvoidance/State/Pose.hpp | 2 +-
 src/State/Pose.cpp                              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/DynamicObstacleAvoidance/State/Pose.hpp b/include/DynamicObstacleAvoidance/State/Pose.hpp
index 752b0e0..9c7c2ff 100644
--- a/include/DynamicObstacleAvoidance/State/Pose.hpp
+++ b/include/DynamicObstacleAvoidance/State/Pose.hpp
@@ -25,7 +25,7 @@ namespace DynamicObstacleAvoidance
 		explicit Pose(const Eigen::Vector3d& position);
 		explicit Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation);
 		explicit Pose(const double& x, const double& y, const double& z);
-		explicit Pose(const double& px, const double& py, const double& pz, const double& qx, const double& qy, const double& qz, const double& qw);
+		explicit Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz);
 		Pose(const Pose& p);
 
 		inline const Eigen::Vector3d& get_position() const 
diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From c096e1cbd574ac94bdd9b969070243a0f69609ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 21/27] fix: removed obstacles must not be found in the
 environment

---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From 7b072c7ca26cd0f767895124c6072e283eba9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 22/27] fix: the safety outline of an ellipsoid was drawn
 without its margin

---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index fb96aa8..982d37a 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -137,9 +137,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From fdb3e2c50aa597282b54c4067636ddb8068e085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 23/27] fix: outline of an ellipsoid in the xz plane was flat

---
 src/Obstacle/Ellipsoid.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 982d37a..8131e07 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -172,10 +172,18 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> tmp_z_safety(n1);
 			for (unsigned int i=0; i<n1; ++i)
 			{
-				tmp_x.at(i) = x[i][0];
-				tmp_x_safety.at(i) = x_safety[i][0];
-				tmp_z.at(i) = z[i][0];
-				tmp_z_safety.at(i) = z_safety[i][0];
+				// outline seen along y: the point of the surface that is the farthest in a direction of the plane
+				Eigen::Array3d direction = this->get_orientation().conjugate() * Eigen::Vector3d(cos(alpha.at(i)), 0, sin(alpha.at(i)));
+				Eigen::Vector3d scaled = this->get_axis_lengths() * direction;
+				Eigen::Vector3d scaled_safety = safety_length * direction;
+				Eigen::Vector3d point = this->get_axis_lengths() * scaled.normalized().array();
+				Eigen::Vector3d safety_point = safety_length * scaled_safety.normalized().array();
+				point = this->get_pose() * point;
+				safety_point = this->get_pose() * safety_point;
+				tmp_x.at(i) = point(0);
+				tmp_x_safety.at(i) = safety_point(0);
+				tmp_z.at(i) = point(2);
+				tmp_z_safety.at(i) = safety_point(2);
 			}
 			plt::plot(tmp_x, tmp_z, color + "-");
 			plt::plot(tmp_x_safety, tmp_z_safety, color + "--");
-- 
2.43.0


From bd3f0f3585bc705e99e32143af169e00d75dd88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 24/27] fix: hulls and aggregates must be drawn in the
 requested plane

---
 src/Obstacle/Aggregate.cpp     |  2 +-
 src/Obstacle/StarShapeHull.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index a9b4538..13f8c19 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -95,7 +95,7 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()((axis == "xz") ? 2 : 1)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 0647e32..339da25 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -140,8 +140,10 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
+		// second coordinate of the plane to draw in
+		unsigned int second = (axis == "xz") ? 2 : 1;
 		std::vector<double> x;
 		std::vector<double> y;
 
@@ -150,20 +152,20 @@ namespace DynamicObstacleAvoidance
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(second));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(second)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(second), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(second)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0


From 7430369e60e682b229b0dd49b52761316b6cfda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 25/27] fix: the agent must be drawn in the plane of its panel

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From 54634a4d327b9f3614c04eec1e1a061fd708bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 26/27] fix: hull points in the center of the hull had no
 direction

---
 src/Obstacle/StarShapeHull.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 339da25..195ebc8 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -83,7 +83,8 @@ namespace DynamicObstacleAvoidance
 				surface_point = (k < intersection_points.size()) ? intersection_points[k] : surface_point;
 			}
 			surface_point(0) += safety(0);
-			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			// too close to the center the direction of the intersection point is not defined
+			if(!(surface_point(0) > this->min_radius)) surface_point = Eigen::Vector3d(this->min_radius, acos(0), phi[i]);
 			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
-- 
2.43.0


From 1ac616a8e8f469a30f24bd2767e3a0eb913c67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 27/27] fix: obstacle weights were NaN when the power of the
 distances over- or underflowed

---
 src/Modulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 2d3b325..4b5b876 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -41,9 +41,11 @@ namespace DynamicObstacleAvoidance
 			{
 				weights = critical_obstacles / sum_critical_obstacles;
 			}
-			else
+			else if(distances.size() > 0)
 			{
-				weights = Eigen::pow(distances - critical_distance, -weight_power);
+				// relative to the nearest obstacle, the power does neither overflow nor vanish for all of them
+				Eigen::ArrayXd margins = distances - critical_distance;
+				weights = Eigen::pow(margins / margins.minCoeff(), -weight_power);
 				weights /= weights.sum();
 			}
 			return weights;
-- 
2.43.0

